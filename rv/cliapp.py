"""Applications for --bootstrap: every name made by new() is an object with get_scheduler()."""
APPS = {}


class App:
    def __init__(self, scheduler):
        self.scheduler = scheduler

    def get_scheduler(self):
        return self.scheduler


def new(scheduler, how):
    name = f"app{len(APPS)}"
    if how == "object":
        APPS[name] = App(scheduler)
    elif how == "function":
        APPS[name] = lambda: scheduler
    else:
        APPS[name] = type("Spec", (), {"get_scheduler": lambda self: scheduler})
    return "rv.cliapp:" + name


def __getattr__(name):
    try:
        return APPS[name]
    except KeyError:
        raise AttributeError(name) from None
