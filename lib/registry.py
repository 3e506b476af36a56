# property id -> harness source (harness/<name>.cpp) and options
def harnesses(spec):
    h = spec["harness"]
    return [h] if isinstance(h, str) else list(h)

CHECKS = {
    "C01": {"harness": "h_sync", "scope": "common"},
    "C02": {"harness": "h_sync", "scope": "common"},
    "C03": {"harness": "h_sync", "scope": "common"},
    "C04": {"harness": "h_queue"},
    "C05": {"harness": "h_config"},
    "C06": {"harness": "h_formula", "scope": "common"},
    "C07": {"harness": "h_vectors"},
    "C08": {"harness": "h_random", "scope": "common"},
    "C09": {"harness": "h_obj"},
    "C10": {"harness": "h_obj"},
    "C11": {"harness": "h_param"},
    "C12": {"harness": "h_param"},
    "C13": {"harness": "h_pset"},
    "C14": {"harness": "h_pset"},
    "C15": {"harness": "h_pset"},
    "C16": {"harness": "h_eval"},
    "C17": {"harness": "h_eval"},
    "C18": {"harness": ["h_courtier", "h_courtier_nd"], "scope": "courtier"},
    "C19": {"harness": ["h_courtier", "h_courtier_nd"], "scope": "courtier"},
    "C20": {"harness": ["h_courtier", "h_courtier_nd"], "scope": "courtier"},
    "C21": {"harness": "h_net", "scope": "courtier"},
    "C22": {"harness": "h_msg", "scope": "courtier"},
    "C23": {"harness": "h_algo"},
    "C24": {"harness": "h_swarm"},
    "C25": {"harness": "h_algo"},
    "C26": {"harness": "h_descent"},
    "C27": {"harness": "h_descent"},
    "C28": {"harness": "h_stop"},
    "C29": {"harness": "h_check"},
    "C30": {"harness": "h_bests"},
    "C31": {"harness": "h_go2"},
    "C32": {"harness": "h_dist"},
    "C33": {"harness": "h_factory"},
    "C34": {"harness": "h_monitor"},
    "C35": {"harness": "h_plot"},
    "C36": {"harness": "h_external"},
    "C37": {"harness": "h_faulty"},
    "C38": {"harness": "h_recomb"},
}
