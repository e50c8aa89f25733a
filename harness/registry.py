"""Which function decides which property."""
CHECKS = {}


def add(module, *ids):
    for i in ids:
        CHECKS[i] = (module, i)


add("c_coords", "C01", "C02", "C03", "C04", "C05", "C06")
add("c_grids", "G01", "G02", "G03", "P05")
add("c_heal", "P01", "P02", "P03", "P04")
add("c_remap", "M01", "M02", "M03")
add("c_polar", "Q01", "Q03")
add("c_utils", "U01", "U02")
add("c_randoms", "R01", "R02", "R03", "R04", "R05", "R06")
add("c_box", "D01", "E01", "Q02")
add("c_sky", "D03", "D04", "D05", "E03", "E04")
add("c_cube", "D02", "E02")
add("c_view", "D06")
add("c_plots", "V01")
add("c_life", "H01", "H02")
add("c_pure", "N01", "N02")
