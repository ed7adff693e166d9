"""The table of checks: property id -> how run.py runs it."""


def go(pkg, pid, **kw):
    return dict(kind="go", pkg="./" + pkg, run="^Test%s(_|$)" % pid, **kw)


CHECKS = {
    "K01": go("codec", "K01", qscale=15),
    "K02": go("codec", "K02", qscale=30),
    "K03": go("prim", "K03", qscale=15),
    "K04": go("prim", "K04", qscale=40),
    "M01": go("merkle", "M01", qscale=6),
    "M02": go("merkle", "M02", qscale=8),
    "M03": go("merkle", "M03", qscale=30),
    "C01": go("wal", "C01", qscale=20),
    "C02": go("wal", "C02", qscale=6),
    "C03": go("wal", "C03", qscale=60),
    "S01": go("base", "S01"),
    "E01": go("base", "E01", qscale=60),
    "B01": go("base", "B01", qscale=80),
    "F01": go("base", "F01", qscale=60),
    "J01": go("icon", "J01", qscale=50),
    "I01": go("icon", "I01", qscale=12),
    "I02": go("icon", "I02", qscale=60),
    "I03": go("icon", "I03", qscale=80),
    "I04": go("icon", "I04", qscale=80),
    "R01": go("icon", "R01"),
    "R02": go("relay", "R02", qscale=20),
    "R03": go("relay", "R03", qscale=30),
    "R04": go("relay", "R04", qscale=2),
    "R05": go("eth", "R05", qscale=2, scale=20),
    "R06": go("e2e", "R06", scale=20, tshards=4),
    "X01": go("e2e", "X01", scale=15),
    "V01": go("score", "V01", java=["score-util", "lib", "bmv/btpblock"], qscale=6),
    "V02": go("score", "V02", java=["score-util", "lib", "bmv/bridge"]),
    "V03": go("score", "V03", java=["score-util", "lib", "bmv/icon"], qscale=3),
    "N01": go("score", "N01", java=["score-util", "lib", "bmc"], qscale=8, scale=100),
    "N02": go("score", "N02", java=["score-util", "lib", "bmc"], qscale=8, scale=100),
    "N03": go("score", "N03", java=["score-util", "lib", "bmc"], qscale=8, scale=100),
    "N04": go("score", "N04", java=["score-util", "lib", "bmc"]),
    "Q01": go("score", "Q01", java=["score-util", "lib", "bmc", "xcall"], qscale=8, scale=60),
    "T01": go("score", "T01", java=["score-util", "lib", "nativecoin"], qscale=8, scale=60),
    "A01": go("score", "A01", java=["score-util", "lib", "fee-aggregation"], qscale=10, scale=60),
    "Y01": go("score", "Y01", qscale=3, scale=60),
    "Y02": go("score", "Y02", qscale=4, scale=60),
    "Y03": go("score", "Y03", qscale=40),
    "D01": dict(kind="go", race=True, pkg="./relay", run="^TestL01", qscale=1, scale=10, shards=2, tshards=2, more=[
        dict(pkg="./relay", run="^Test(L02|R02|R03|R04)", qscale=2, scale=20),
        dict(pkg="./eth", run="^TestR05", qscale=1, scale=8),
        dict(pkg="./icon", run="^Test(D01|R01)", qscale=1, scale=10),
        dict(pkg="./base", run="^TestD01", qscale=20, scale=400),
        dict(pkg="./e2e", run="^Test(R06_Relay|O01)", qscale=1, scale=10)]),
    "O01": dict(kind="go", pkg="./base", run="^TestO01", qscale=15, scale=300, shards=2, tshards=4, more=[
        dict(pkg="./e2e", run="^TestO01", qscale=4, scale=60), dict(pkg="./e2e", run="^TestO01", qscale=4, scale=60)]),
    "L01": go("relay", "L01"),
    "L02": go("relay", "L02", qscale=40),
}
