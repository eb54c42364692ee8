"""What each property's check runs and which oracle verdicts it claims.

profile list: (profile, quick runs, thorough runs). Claims: regular expressions over violation classes.
A class that a check does not claim is noted in its evidence, and raised by the property that owns it.
"""
CRASH = [r"CRASH:.*", r"HANG:.*"]
SESSION = [r"session\..*", r"attach\..*", r"client\..*"]
CHECKS = {
 "P01": dict(profiles=[("hostile", 6000, 80000), ("reconn", 1600, 5000)],
             claims=[r"P01\..*", r"relay\..*", r"session\..*", r"P02\..*", r"client\.dropped", r"P10\..*"] + CRASH,
             title="hostile peers"),
 "P02": dict(profiles=[("wire", 4400, 40000), ("relay", 1800, 20000), ("slow", 1000, 10000)],
             claims=[r"P02\..*", r"session\.dropped", r"session\.quit"] + CRASH,
             title="client commands on the wire"),
 "P03": dict(profiles=[("relay", 4000, 40000), ("slow", 1200, 20000), ("state", 1000, 10000), ("multi", 600, 5000), ("ctcp", 500, 5000)],
             claims=[r"relay\..*", r"client\.dropped", r"P18\..*"] + CRASH,
             title="relay fan-out"),
 "P04": dict(profiles=[("query", 5400, 60000), ("wire", 900, 10000), ("multi", 500, 5000)],
             claims=[r"reply\..*", r"P08\.both"] + CRASH,
             title="reply routing"),
 "P05": dict(profiles=[("slow", 4600, 50000), ("relay", 1200, 10000), ("multi", 600, 5000)],
             claims=[r"session\..*", r"relay\..*", r"P02\..*", r"client\..*", r"P07\..*", r"attach\..*"] + CRASH,
             title="stalled, dying and leaving clients"),
 "P06": dict(profiles=[("state", 5400, 60000), ("relay", 900, 10000), ("cache", 500, 5000), ("replay", 500, 5000)],
             claims=[r"P06\..*", r"attach\..*"] + CRASH,
             title="attach replication"),
 "P07": dict(profiles=[("relay", 4400, 40000), ("wire", 1600, 10000), ("slow", 1000, 10000)],
             claims=[r"P07\..*", r"P18\.cross-client"] + CRASH,
             title="mirroring between clients"),
 "P08": dict(profiles=[("cache", 6200, 60000), ("query", 700, 10000), ("state", 500, 5000)],
             claims=[r"P08\..*"] + CRASH,
             title="cache answers"),
 "P09": dict(profiles=[("login", 9000, 80000), ("reconn", 3500, 20000), ("split", 700, 5000)],
             claims=[r"P09\..*"] + CRASH,
             title="login, nick fallback, rejoin and startup commands"),
 "P10": dict(profiles=[("reconn", 8000, 80000), ("split", 2500, 20000), ("admin", 2000, 15000)],
             claims=[r"P10\..*"] + CRASH,
             title="reconnecting"),
 "P11": dict(profiles=[("ping", 10000, 80000), ("reconn", 3000, 20000)],
             claims=[r"P11\..*", r"session\.dropped"] + CRASH,
             title="pings and dead connections"),
 "P12": dict(profiles=[("split", 6500, 60000), ("multi", 1500, 20000), ("admin", 700, 5000)],
             claims=[r"P12\..*", r"P06\.view", r"client\.dropped", r"attach\..*"] + CRASH,
             title="clients across server losses"),
 "P13": dict(profiles=[("replay", 7000, 60000)],
             claims=[r"P13\..*", r"P06\.view", r"client\.dropped", r"attach\..*"] + CRASH,
             title="backlog replay"),
 "P14": dict(profiles=[("storefail", 8000, 60000)],
             claims=[r"P14\..*", r"relay\..*", r"P02\..*", r"session\..*", r"client\.dropped", r"attach\..*"] + CRASH,
             title="backlog store failures"),
 "P15": dict(profiles=[("auth", 12000, 80000)],
             claims=[r"P15\..*", r"attach\.stuck", r"client\.dropped", r"P18\..*"] + CRASH,
             title="access control"),
 "P18": dict(profiles=[("multi", 5600, 60000), ("nickserv", 500, 5000), ("logs", 400, 5000)],
             claims=[r"P18\..*", r"relay\..*", r"P02\..*", r"session\..*", r"P07\..*"] + CRASH,
             title="isolation of networks"),
 "P16": dict(profiles=[("save", 7000, 60000), ("admin", 800, 5000)],
             claims=[r"P16\..*"] + CRASH,
             title="saved configuration"),
 "P17": dict(profiles=[("nickserv", 7000, 60000)],
             claims=[r"P17\..*", r"P09\..*", r"P02\..*"] + CRASH,
             title="nick service passwords"),
 "P19": dict(profiles=[("ctcp", 7000, 60000)],
             claims=[r"P19\..*", r"relay\..*", r"P02\..*"] + CRASH,
             title="CTCP"),
 "P20": dict(profiles=[("away", 7000, 60000)],
             claims=[r"P20\..*"] + CRASH,
             title="automatic away"),
 "P23": dict(profiles=[("shutdown", 6000, 60000), ("save", 1000, 5000)],
             claims=[r"P23\..*", r"P16\..*", r"P09\..*", r"P17\..*"] + CRASH,
             title="shutdown"),
 "P21": dict(profiles=[("logs", 6000, 50000)],
             claims=[r"P21\..*", r"relay\..*", r"session\..*", r"P02\..*", r"client\.dropped"] + CRASH,
             title="conversation logs"),
 "P22": dict(profiles=[("admin", 6000, 60000)],
             claims=[r"P22\..*", r"P10\..*", r"P02\.fabricated", r"client\.dropped", r"attach\..*"] + CRASH,
             title="administration"),
}
