from . import prep
BOUNDS = 'profiles of up to 5 (thorough: 6) intervals with every height free; of 40 and 650 intervals with two heights free'


def obligations(tier):
    return prep.hzns(tier)
