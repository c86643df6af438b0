from . import prep
BOUNDS = 'siting -1 to 3, all flags'


def obligations(tier):
    return prep.qlra(tier)
