"""Which specification modules and which scenarios decide which property."""

# Design modules: model-checked exhaustively within the bounds of their configuration.
def D(module, quick, thorough=None, checks="", **kw):
    d = {"module": module, "quick": quick, "thorough": thorough or quick, "checks": checks}
    d.update(kw)
    return d

DESIGN = {
    "asm_mixed": D("AssemblyMC", "AssemblyMC_mixed", "AssemblyMC_mixed_t", "reassembly algorithm refines Assembly: all prefixes tracked"),
    "asm_some": D("AssemblyMC", "AssemblyMC_some", None, "reassembly algorithm refines Assembly: some prefixes tracked"),
    "asm_window": D("AssemblyMC", "AssemblyMC_window", "AssemblyMC_window_t", "reassembly with bounded memory of completed blocks and large reorgs"),
    "asm_gen": D("AssemblyMC", "AssemblyMC_gen", "AssemblyMC_gen_t", "delivery orders of one block with repetitions"),
    "ord": D("OrderingMC", "OrderingMC_ord", "OrderingMC_ord6w", "chain following refines Ordering: trees, orders, duplicates, ties"),
    "ord_p": D("OrderingMC", "OrderingMC_ordp", None, "same, with redelivered history"),
    "ord6": D("OrderingMC", "OrderingMC_ord6", None, "six-block trees"),
    "ord_wl": D("OrderingMC", "OrderingMC_wl", "OrderingMC_wl2", "whitelists"),
    "ord_dep": D("OrderingMC", "OrderingMC_dep", "OrderingMC_dep4", "reorgs of up to the threshold with history being discarded"),
    "ord_boot": D("OrderingMC", "OrderingMC_boot", None, "start without a last block"),
    "g_ord": D("OrderingMC", "OrderingMC_gord", "OrderingMC_gord", "every tree of 5 blocks x every order"),
    "g_ord6": D("OrderingMC", "OrderingMC_gord6", "OrderingMC_gord6", "every tree of 6 blocks x every order"),
    "g_dup": D("OrderingMC", "OrderingMC_gdup", "OrderingMC_gdupw", "every tree of 5 blocks x every order x one duplicate"),
    "g_wl": D("OrderingMC", "OrderingMC_gwl", "OrderingMC_gwl2", "every tree x every order x every pinned block"),
    "g_dep": D("OrderingMC", "OrderingMC_gdep", "OrderingMC_gdep4", "every fork depth x every order of the competing branch"),
    "notice": D("OrderingMC", "OrderingMC_notice", "OrderingMC_notice5", "restart of the chain at the block of a large-reorg notice"),
    "g_notice": D("OrderingMC", "OrderingMC_gnotice", "OrderingMC_gnotice5", "every notice x every order of the chain that continues from there"),
    "prod": D("ProducerMC", "ProducerMC_4", "ProducerMC_5", "producer calls: announced batches, rejections; source of call sequences"),
    "wait": D("WaiterMC", "WaiterMC_fork", "WaiterMC_fork_t", "channels of waits refine Waiter: forks, repeats, blocks that come in messages or whole"),
    "g_wait": D("WaiterMC", "WaiterMC_gen", None, "every sequence of announcements, completions, processing and waits over two blocks"),
    "g_waitf": D("WaiterMC", "WaiterMC_genf", "WaiterMC_genf_t", "the same over three blocks with a fork"),
    "kstart": D("KafkaStartMC", "KafkaStartMC", "KafkaStartMC_t", "start of a Kafka consumer: barrier, lead limit, readiness; always becomes ready, never before it caught up"),
    "kprod": D("KafkaProdMC", "KafkaProdMC_6", None, "calls of a Kafka producer among headers seen on the log and purges"),
    "g_kprod": D("KafkaProdMC", "KafkaProdMC_4", "KafkaProdMC_5", "every sequence of calls, headers seen and purges"),
    "muxprod": D("MuxProdMC", "MuxProdMC", "MuxProdMC_5", "calls of a producer of two logs and a websocket among headers seen on either and purges"),
    "kchain": D("KafkaChainMC", "KafkaChainMC", "KafkaChainMC_t", "crashes at any point and restarts from tokens over a partitioned log"),
    "wstream": D("WsStreamMC", "WsStreamMC", "WsStreamMC_3", "websocket subscriptions: history, gap, live messages; lost connections; where the client resumes; everything arrives"),
    "g_wstream": D("WsStreamMC", "WsStreamMC_sim", None, "random behaviours of server, producer and failures for a client to be driven with",
                   args=lambda tier, seed: ["-simulate", "num=%d" % (3000 if tier == "quick" else 20000), "-depth", "90", "-seed", str(seed)]),
    "reorgtopic": D("ReorgTopicMC", "ReorgTopicMC", "ReorgTopicMC_t", "reading a large reorg from its own topic while it is being written: everything arrives, in order"),
    "g_reorgtopic": D("ReorgTopicMC", "ReorgTopicMC_gen", "ReorgTopicMC_gen_t", "every order of writes to the two topics x where the consumer comes to rest"),
    "resume": D("TransportsMC", "TransportsMC", "TransportsMC_t", "asking a log that is being written for the position of a moment: nothing newer is skipped"),
    "g_urls": D("TransportsMC", "TransportsMC_gen", None, "every list of up to three URLs for every function that takes URLs"),
    "ord_fresh": D("OrderingMC", "OrderingMC_fresh", "OrderingMC_fresh6", "start without a last block, blocks after what they build on"),
    "g_fresh": D("OrderingMC", "OrderingMC_gfresh", "OrderingMC_gfresh6", "every tree x every order of blocks after what they build on, no last block"),
    "g_boot": D("OrderingMC", "OrderingMC_gboot", None, "every tree x every order, no last block"),
}

def R(scen, module, quick, thorough, sched=None, batch=4000):
    r = {"scen": scen, "module": module, "quick": quick, "thorough": thorough, "batch": batch}
    if sched:
        r["sched"] = sched
    return r

ASM = lambda q, t: R("assembly", "AssemblyTrace", q, t, batch=2500)
ASMGEN = R("asmgen", "AssemblyTrace", 20000, 200000, "asm_gen", batch=20000)
KCHAIN = lambda q, t: R("kchain", "ChainTrace", q, t, batch=2000)
RACE = lambda q, t: R("asmrace", "AssemblyTrace", q, t, batch=2500)
def ORD(scen, q, t):
    return R(scen, "OrderingTrace", q, t)
def ORDGEN(sched, q=20000, t=500000):
    return R("ordgen", "OrderingTrace", q, t, sched, batch=25000)

A_ASM = ["keys are distinct across the updates, deletes and subbatches of a block; a record prefix is a key or ends in '/'",
         "no two schema expressions match the same key", "batch ids are unique per block"]
A_ORD = ["weights are positive and do not decrease along a chain", "after a restart the last processed block is handed over again"]

A_PROD = ["keys are distinct across the updates, deletes and subbatches of a block; batch ids are unique within a block",
          "no two schema expressions match the same key", "numbers of large-reorg notices are below 2^31"]

PLAN = {
    "C01": dict(design=["asm_mixed"], runs=[ASMGEN, ASM(2000, 40000), KCHAIN(150, 1500), R("wsclient", "ChainTrace", 150, 1500, batch=2000)], assumptions=A_ASM),
    "C02": dict(design=["asm_mixed", "asm_window"], runs=[ASMGEN, ASM(2000, 40000)], assumptions=A_ASM),
    "C03": dict(design=["asm_window"], runs=[ASMGEN, ASM(2500, 40000), RACE(2000, 30000)], assumptions=A_ASM),
    "C04": dict(design=["asm_mixed", "asm_window"], runs=[ASMGEN, ASM(2000, 40000), RACE(1000, 15000)], assumptions=A_ASM),
    "C05": dict(design=["asm_some"], runs=[ASM(3000, 40000)], assumptions=A_ASM),
    "C06": dict(design=["asm_mixed"], runs=[ASM(2500, 40000), RACE(1500, 20000), KCHAIN(150, 1500)], assumptions=A_ASM),
    "C08": dict(design=["asm_window"], runs=[ASM(1500, 15000), KCHAIN(300, 3000)], assumptions=A_ASM),
    "C22": dict(design=["asm_mixed"], runs=[ASMGEN, ASM(2000, 40000), R("whyrace", "AssemblyTrace", 2000, 30000, batch=2000)], assumptions=A_ASM),
    "C07": dict(design=[], runs=[R("prodgen", "ProducerTrace", 20000, 40000, "prod", batch=10000), R("producer", "ProducerTrace", 6000, 60000, batch=6000)], assumptions=A_PROD),
    "C26": dict(design=["asm_window", "notice"], runs=[ORDGEN("g_notice"), ORD("reorgs", 4000, 40000), ORD("notices", 2000, 20000), R("wsreorg", "OrderingTrace", 600, 8000, batch=2000), ASM(2500, 40000)], assumptions=A_ASM + A_ORD),
    "C09": dict(design=["ord", "ord_boot"], runs=[ORDGEN("g_ord"), ORDGEN("g_boot"), ORD("ordering", 1500, 20000), ORD("longrun", 800, 10000), ORD("bootstrap", 1500, 20000), ORD("startup", 1500, 20000), ORD("depth", 1000, 10000), ORD("pordering", 600, 6000), ORD("pdepth", 300, 3000)], assumptions=A_ORD),
    "C10": dict(design=["ord", "ord_p"], runs=[ORDGEN("g_ord"), ORD("ordering", 2000, 20000), ORD("longrun", 800, 10000), ORD("depth", 1000, 10000), ORD("startup", 1500, 20000), ORD("whitelist", 1500, 10000), ORD("pordering", 600, 6000), ORD("pdepth", 300, 3000)], assumptions=A_ORD),
    "C11": dict(design=["ord", "ord_p", "ord6"], runs=[ORDGEN("g_ord"), ORD("ordering", 9000, 60000), ORDGEN("g_ord6", 0), ORD("pordering", 1500, 15000)], assumptions=A_ORD),
    "C12": dict(design=["ord_wl"], runs=[ORDGEN("g_wl"), ORD("whitelist", 4000, 40000), ORD("pwhitelist", 1000, 10000)], assumptions=A_ORD),
    "C13": dict(design=["ord", "ord_p"], runs=[ORDGEN("g_dup"), ORD("ordering", 2500, 20000), ORD("longrun", 1000, 10000), ORD("whitelist", 1500, 10000), ORD("bootstrap", 1500, 10000), ORD("pordering", 1000, 10000), ORD("pwhitelist", 500, 5000)], assumptions=A_ORD),
    "C14": dict(design=["ord_dep"], runs=[ORDGEN("g_dep"), ORD("depth", 4000, 40000), ORD("pdepth", 1000, 10000)], assumptions=A_ORD),
    "C15": dict(design=["wait"], runs=[R("waitgen", "WaiterTrace", 8000, 60000, "g_wait", batch=10000), R("waitgen", "WaiterTrace", 8000, 60000, "g_waitf", batch=10000),
                                       R("waiter", "WaiterTrace", 3000, 40000)], assumptions=["a repeat of a block comes while it is among the last 2 x reorg-threshold completed ones", "waits begin within 60 s of the block they are for", "no large-reorg notice between a block and the wait for it"]),
    "C18": dict(design=["kstart"], runs=[R("kstart", "KafkaTrace", 320, 4000, batch=400)], assumptions=["offsets of a token lie on record boundaries of an uncompacted log"]),
    "C16": dict(design=["kchain"], runs=[R("kchain", "ChainTrace", 1000, 10000, batch=2000)], assumptions=A_ASM + A_ORD + [
        "the rollback reaches back to every block of the branches that may become heavier than the stored head, and the reorg threshold covers the blocks around the fork",
        "branches grow once more after everything was read"]),
    "C20": dict(design=["wstream"], runs=[R("wsfeed", "WsFeedTrace", 700, 10000, batch=2500)], assumptions=A_ASM + [
        "the history that a producer resumes from has a block whole once the block is published, and goes back to the fork when the block it is asked to resume from is not on its chain",
        "the chain does not come back to a branch that it left"]),
    "C19": dict(design=["wstream"], runs=[R("wsgen", "ChainTrace", 12000, 100000, "g_wstream", batch=12000), R("wsclient", "ChainTrace", 900, 12000, batch=2000), R("wschain", "ChainTrace", 500, 6000, batch=2000)], assumptions=A_ASM + A_ORD + [
        "the history that a producer resumes from has a block whole once the block is published, and goes back to the fork when the block it is asked to resume from is not on its chain",
        "on a change of branch every block of the new branch is published", "applications restart only while their head is on the producer's chain"]),
    "C21": dict(design=["ord"], runs=[R("muxprodgen", "MuxProdTrace", 10000, 100000, "muxprod", batch=10000), R("muxprod", "MuxProdTrace", 1200, 15000, batch=2500), R("muxchain", "ChainTrace", 700, 9000, batch=1500)],
                assumptions=A_PROD + A_ORD + ["the topics of a mux consumer's brokers have different names", "the rollback reaches back to all messages of the stored head and of blocks that were not applied; with a websocket among the transports, to the beginning",
                                              "applications restart only while their head is on the chain that websocket feeds have", "branches grow once more after everything was read"]),
    "C17": dict(design=["kprod"], runs=[R("kprodgen", "KafkaProdTrace", 4096, 32768, "g_kprod", batch=5000), R("kprod", "KafkaProdTrace", 1500, 12000, batch=2000)],
                assumptions=A_PROD + ["calls are made one after another, and headers count as seen when the producer had time to read them"]),
    "C23": dict(design=["resume"], runs=[R("resolvegen", "TransportsTrace", 1300, 20000, "g_urls", batch=2000), R("resolve", "TransportsTrace", 300, 5000, batch=2000), R("resume", "TransportsTrace", 1500, 20000, batch=2500),
                                         R("latest", "TransportsTrace", 500, 8000, batch=2000), R("urlopts", "TransportsTrace", 2000, 20000, batch=5000)],
                assumptions=["records of a partition that is asked for its latest block arrive within a second", "URLs can be parsed", "the topics of a consumer's brokers have different names"]),
    "C24": dict(design=[], runs=[R("kping", "KafkaTrace", 500, 8000, batch=1000), R("kbeat", "KafkaTrace", 8, 64)], assumptions=["heartbeats count from when they are read"]),
    "C27": dict(design=["reorgtopic"], runs=[R("kreorggen", "OrderingTrace", 200, 4000, "g_reorgtopic", batch=1000), R("kreorg", "OrderingTrace", 300, 6000, batch=1000)],
                assumptions=A_ORD + ["every reorg has a common ancestor, and so a topic, of its own, and its topic has one partition, exists when it is announced, starts with its Reorg message and ends with ReorgComplete",
                                     "blocks before the announcement are whole when it is read; blocks after the reorg on other partitions than the announcement's are written when the consumer has read the reorg"]),
    "C28": dict(design=["ord_fresh"], runs=[ORDGEN("g_fresh"), ORD("fresh", 5000, 60000), ORD("pfresh", 1000, 10000)], assumptions=["weights are positive and do not decrease along a chain"]),
    "C25": dict(design=["ord_p"], runs=[ORD("startup", 4000, 40000), ORD("pstartup", 1000, 10000)], assumptions=A_ORD),
}

NOT_APPLICABLE = {}
