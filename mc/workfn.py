"""functions the simulated processors load; they report to the simulation that is active"""
SIM = [None]


def f(*args):
    return SIM[0].execute("f", args)


def g(*args):
    return SIM[0].execute("g", args)


def h(*args):
    return SIM[0].execute("h", args)


def outcome(tag):
    """a function whose behaviour is named by its argument (mc.scen_outcomes)"""
    return SIM[0].outcome_of(tag)
