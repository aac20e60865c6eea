REGISTRY = {
    "C01": ("cache", "c01"), "C02": ("cachekey", "c02"), "C03": ("cachefs", "c03"), "C04": ("cachebuild", "c04"), "C05": ("cachefd", "c05"),
    "C06": ("cachefs", "c06"), "C07": ("cachebuild", "c07"), "C08": ("cachemiss", "c08"),
    "T03": ("wirecheck", "t03"), "G01": ("wirecheck", "g01"), "G02": ("wirecheck", "g02"), "G03": ("fallback", "g03"), "G04": ("alias", "g04"), "G05": ("options", "g05"), "D01": ("resources", "d01"), "D02": ("tables", "d02"),
    "T01": ("parser", "t01"), "T02": ("parser", "t02"), "L01": ("cli", "l01"), "L02": ("cli", "l02"),
    "R01": ("queries", "r01"), "R02": ("queryrules", "r02"), "R03": ("queryrules", "r03"), "R04": ("queryrules", "r04"),
}
