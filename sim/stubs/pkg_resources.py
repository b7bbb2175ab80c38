def declare_namespace(name):
    pass
