from . import terrain
BOUNDS = 'any site and line; areas of 2 to 3 (thorough: 4) cells, interdecile range of up to 4 (thorough: 6) values; packages modelled'


def obligations(tier):
    return terrain.terrain(tier)
