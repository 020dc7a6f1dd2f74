"""Which check decides which property."""
DEFAULT_TECHNIQUE = "TLA+ specification checked with TLC; conformance by replaying specification behaviours and random histories into the real code and validating the recorded traces against the specification with TLC"
DEFAULT_NOTE = ("The specification is explored exhaustively within small constants; the real code is bound to it by trace validation of generated "
                "and random histories, so the guarantee on the code is exhaustive only over the replayed histories. Trusts TLC, the ROS/PCL/octomap "
                "stand-ins and the fixed-point encoding of traces.")
TECHNIQUE = {}
NOTES = {}
NA = {}
CHECKS = {
    "C01": ("comp_usm", "check", "model_checking"),
    "C02": ("comp_node", "failsafe", "model_checking"),
    "C03": ("comp_node", "params", "model_checking"),
    "C04": ("comp_tf", "check", "model_checking"),
    "C05": ("comp_hist", "check", "model_checking"),
    "C06": ("comp_common", "directions", "model_checking"),
    "C07": ("comp_common", "fov", "model_checking"),
    "C18": ("comp_sim","trajectories","model_checking"),
    "C19": ("comp_slp", "grid", "model_checking"),
    "C20": ("comp_slp","landing","model_checking"),
    "C21": ("comp_slp","fsm","model_checking"),
    "C22": ("comp_slp","sites","model_checking"),
    "C23": ("comp_slp","wpnode","model_checking"),
    "C08": ("comp_msgs","trajectories","model_checking"),
    "C16": ("comp_local_node", "commands", "model_checking"),
    "C17": ("comp_local_node", "cameras", "model_checking"),
    "C24": ("comp_slpnode","node","model_checking"),
    "C09": ("comp_local","modes","model_checking"),
    "C10": ("comp_local","limits","model_checking"),
    "C11": ("comp_local","paths","model_checking"),
    "C12": ("comp_planner","memory","model_checking"),
    "C13": ("comp_planner","obstacle_map","model_checking"),
    "C15": ("comp_planner","steering","model_checking"),
    "C14": ("comp_planner","tree","model_checking"),
    "C25": ("comp_global","cells","model_checking"),
    "C26": ("comp_global","paths","model_checking"),
    "C27": ("comp_global","simplify","model_checking"),
    "C28": ("comp_global_node","goals","model_checking"),
    "C29": ("comp_global_node","setpoints","model_checking"),
    "C31": ("comp_diagram","check","model_checking"),
    "C30": ("comp_global","fresh","model_checking"),
    "C32": ("comp_display","local","model_checking"),
    "C33": ("comp_display","landing","model_checking"),
    "C34": ("comp_display","world","model_checking"),
}