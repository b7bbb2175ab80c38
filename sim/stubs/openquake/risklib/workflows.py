# The constructors of risklib.workflows


class Workflow(object):
    def __hash__(self):
        return 2


class Scenario(Workflow):
    def __init__(self, vulnerability_functions, insured_losses=False):
        self.vulnerability_functions = vulnerability_functions
        self.insured_losses = insured_losses


class Damage(Workflow):
    def __init__(self, fragility_functions):
        self.fragility_functions = fragility_functions


class RiskModel(object):
    def __init__(self, taxonomy, workflow):
        self.taxonomy = taxonomy
        self.workflow = workflow

    def __hash__(self):
        return 3
