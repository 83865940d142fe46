"""the supported emission species, written out independently of openscm.core.units"""
PLAIN = """CFC11 CFC12 CFC13 CFC113 CFC114 CFC115 HCFC21 HCFC22 HCFC123 HCFC124 HCFC141b HCFC142b HCFC225ca HCFC225cb HFC23 HFC32 HFC41 HFC125 HFC134 HFC134a
HFC143 HFC143a HFC152 HFC152a HFC161 HFC227ea HFC236cb HFC236ea HFC236fa HFC245ca HFC245fa HFC365mfc Halon1201 Halon1202 Halon1211 Halon1301 Halon2402
CF4 C2F6 cC3F6 C3F8 cC4F8 C4F10 C5F12 C6F14 C7F16 C8F18 C10F18 HFE125 HFE134 HFE143a HCFE235da2 HFE245cb2 HFE245fa2 HFE347mcc3 HFE347pcf2 HFE356pcc3 HFE449sl
HFE569sf2 HFE4310pccc124 HFE236ca12 HFE338pcc13 HFE227ea HFE236ea2 HFE236fa HFE245fa1 HFE263fb2 HFE329mcc2 HFE338mcf2 HFE347mcf2 HFE356mec3 HFE356pcf2
HFE356pcf3 HFE365mcf3 HFE374pc2 PFPMIE CCl4 CHCl3 CH2Cl2 CH3CCl3 CH3Cl CH3Br SF5CF3 SF6 NF3 SO2F2""".split()

# family -> {spelling: amount of the family's base}
FAMILIES = {p: {p: 1.0} for p in PLAIN}
FAMILIES.update(
    {
        "C": {"C": 1.0, "carbon": 1.0, "CO2": 12 / 44, "carbon_dioxide": 12 / 44},
        "CH4": {"CH4": 1.0, "methane": 1.0},
        "N": {
            "N": 1.0, "nitrogen": 1.0, "N2O": 14 / 44, "nitrous_oxide": 14 / 44, "N2ON": 14 / 28, "nitrous_oxide_farming_style": 14 / 28, "NH3": 14 / 17,
            "ammonia": 14 / 17,
        },
        "NOx": {"NOx": 1.0, "nox": 1.0},
        "S": {"S": 1.0, "sulfur": 1.0, "SO2": 32 / 64, "sulfur_dioxide": 32 / 64, "SOx": 32 / 64},
        "BC": {"BC": 1.0, "black_carbon": 1.0},
        "OC": {"OC": 1.0},
        "CO": {"CO": 1.0, "carbon_monoxide": 1.0},
        "VOC": {"VOC": 1.0, "NMVOC": 1.0, "non_methane_volatile_organic_compounds": 1.0},
        "HFC4310mee": {"HFC4310mee": 1.0, "HFC4310": 1.0},
    }
)
ALIASES = {
    "carbon", "carbon_dioxide", "methane", "nitrogen", "nitrous_oxide", "nitrous_oxide_farming_style", "ammonia", "sulfur", "sulfur_dioxide", "black_carbon",
    "carbon_monoxide", "non_methane_volatile_organic_compounds",
}
MASS = {
    "g": 1.0, "kg": 1e3, "mg": 1e-3, "Mg": 1e6, "Gg": 1e9, "Tg": 1e12, "Pg": 1e15, "t": 1e6, "kt": 1e9, "Mt": 1e12, "Gt": 1e15, "ug": 1e-6,
}
TIME = {"yr": 365.25 * 86400, "a": 365.25 * 86400, "d": 86400.0, "s": 1.0, "h": 3600.0, "year": 365.25 * 86400, "annum": 365.25 * 86400, "month": 365.25 * 86400 / 12}


def spellings(family):
    """all names, upper case ones included"""
    out = dict(FAMILIES[family])
    for s, f in FAMILIES[family].items():
        if s not in ALIASES:
            out[s.upper()] = f
    return out


def joint(family):
    """names usable glued to g or t"""
    return {s: f for s, f in spellings(family).items() if s not in ALIASES}
