class Dependency(object):
    def __init__(self, component_id, component_property):
        self.key = "%s.%s" % (component_id, component_property)


class Input(Dependency):
    pass


class Output(Dependency):
    pass


class State(Dependency):
    pass
