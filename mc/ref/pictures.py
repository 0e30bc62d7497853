"""The tile pictures of a report: digest of a picture -> the tile it belongs to (by the name it was drawn under)."""
SHOWS = {
    "3fbfedc434728b20": "0m",
    "fc3517300c9d25da": "0p",
    "1ee6dab67440972a": "0s",
    "86d98f14396a8fb0": "1m",
    "a01af53dfcd8ea71": "1p",
    "2561468e651877fc": "1s",
    "42cefc9f850765cc": "1z",
    "f60543e8f654e043": "2m",
    "7b614f1c11740017": "2p",
    "db73df11f8d46168": "2s",
    "0af493c83f36f0d2": "2z",
    "bc85f81df1dd1a7c": "3m",
    "554955ad5393ccdc": "3p",
    "9a0ae8c6ee3b3fcc": "3s",
    "773cb7d9c5059d45": "3z",
    "344e9459b1432f83": "4m",
    "7d71675f77e5ad3f": "4p",
    "fa34760ebb176b70": "4s",
    "e34fc45e2c12a69d": "4z",
    "ea38071c3c2af22b": "5m",
    "91b7926f2fef9d8f": "5p",
    "a1017f88e01df67c": "5s",
    "b3acbce34d4744a9": "5z",
    "2c918e02c44372f2": "6m",
    "7c57650d3f1e4b9b": "6p",
    "33bed53294c994ff": "6s",
    "384a3da553928504": "6z",
    "068498a54fd11c8c": "7m",
    "638167e268edfd93": "7p",
    "1e412b3026fe5587": "7s",
    "d5e613666636e7d9": "7z",
    "adcc3825bf5db998": "8m",
    "07fd671cafbf2bf6": "8p",
    "dd547c1c72607b08": "8s",
    "df99bcc295557a99": "9m",
    "f2d98025fbce3b44": "9p",
    "aa1f3b8f155ab35d": "9s",
}
