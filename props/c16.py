from . import prep
BOUNDS = 'profiles of 2 to 60 intervals with every height free, 100, 300 and 650 with some free; order statistic abstracted'


def obligations(tier):
    return prep.dlthx(tier)
