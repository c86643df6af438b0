from . import prep
BOUNDS = 'profiles of up to 5 (thorough: 10) intervals, every interval on them; 20 to 640 intervals with fixed fitting intervals'


def obligations(tier):
    return prep.zlsq1(tier)
