"""Table of registered checks: property -> design models and replay stages."""
LEG = ["leg-" + m for m in ("create", "digest", "sign", "verify", "sweep", "multi", "decode", "direct")]
CHECKS = {
    "P01": dict(models=[dict(module="AddrCodec", cfg_thorough="AddrCodec_thorough.cfg")],
                stages=[dict(group="addr", mode="encode", spec="T_Addr", scn="AddrCodec")]),
    "P02": dict(models=[dict(module="AddrCodec", cfg_thorough="AddrCodec_thorough.cfg")],
                stages=[dict(group="addr", mode="decode", spec="T_Addr", scn="AddrCodec")]),
    "P03": dict(models=[dict(module="AddrCodec", cfg_thorough="AddrCodec_thorough.cfg")],
                stages=[dict(group="addr", mode="check", spec="T_Addr", scn="AddrCodec")]),
    "P04": dict(models=[dict(module="KeyTree", cfg_thorough="KeyTree_thorough.cfg")],
                stages=[dict(group="hd", mode="derive", spec="T_HD", scn="KeyTree"), dict(group="hd", mode="path", spec="T_HD")]),
    "P05": dict(models=[dict(module="KeyTree", cfg_thorough="KeyTree_thorough.cfg")],
                stages=[dict(group="hd", mode="refuse", spec="T_HD"), dict(group="hd", mode="derive", spec="T_HD", scn="KeyTree")]),
    "P06": dict(models=[dict(module="AddrCodec", cfg_thorough="AddrCodec_thorough.cfg")],
                stages=[dict(group="hd", mode="text", spec="T_HD", scn="AddrCodec")]),
    "P07": dict(models=[], stages=[dict(group="btc", mode="create", spec="T_Btc")]),
    "P08": dict(models=[dict(module="TxLifecycle", cfg_thorough="TxLifecycle_thorough.cfg")], stages=[dict(group="btc", mode="digest", spec="T_Btc", scn="TxLifecycle")]),
    "P09": dict(models=[dict(module="TxLifecycle", cfg_thorough="TxLifecycle_thorough.cfg")], stages=[dict(group="btc", mode="sign", spec="T_Btc")]),
    "P10": dict(models=[dict(module="TxLifecycle", cfg_thorough="TxLifecycle_thorough.cfg")],
                stages=[dict(group="btc", mode="verify,sweep", spec="T_Btc", scn={"verify": "TxLifecycle"})]),
    "P11": dict(models=[dict(module="TxLifecycle", cfg_thorough="TxLifecycle_thorough.cfg")], stages=[dict(group="btc", mode="multi", spec="T_Btc")]),
    "P12": dict(models=[dict(module="Codecs", cfg_thorough="Codecs_thorough.cfg")], stages=[dict(group="btc", mode="token", spec="T_Btc"), dict(group="alt", mode="p12", spec="T_Alt", scn="Codecs")]),
    "P13": dict(models=[dict(module="TxForm", cfg_thorough="TxForm_thorough.cfg")], stages=[dict(group="btc", mode="decode", spec="T_Btc", scn="TxForm")]),
    "P14": dict(models=[dict(module="Codecs", cfg_thorough="Codecs_thorough.cfg")], stages=[dict(group="alt", mode="p14", spec="T_Alt", scn="Codecs")]),
    "P15": dict(models=[dict(module="Codecs", cfg_thorough="Codecs_thorough.cfg")], stages=[dict(group="alt", mode="p15", spec="T_Alt", scn="Codecs")]),
    "P16": dict(models=[dict(module="Codecs", cfg_thorough="Codecs_thorough.cfg")], stages=[dict(group="alt", mode="p16", spec="T_Alt", scn="Codecs")]),
    "P17": dict(models=[dict(module="Codecs", cfg_thorough="Codecs_thorough.cfg")], stages=[dict(group="alt", mode="p17", spec="T_Alt", scn="Codecs")]),
    "P18": dict(models=[dict(module="Codecs", cfg_thorough="Codecs_thorough.cfg")], stages=[dict(group="alt", mode="p18", spec="T_Alt", scn="Codecs")]),
    "P19": dict(models=[dict(module="Codecs", cfg_thorough="Codecs_thorough.cfg")], stages=[dict(group="alt", mode="p19", spec="T_Alt", scn="Codecs")]),
    "P20": dict(models=[dict(module="Combine", cfg_thorough="Combine_thorough.cfg")], stages=[dict(group="alt", mode="tamper,sweep", spec="T_Alt", scn={"tamper": "Combine"})]),
    "P21": dict(models=[dict(module="Sessions", cfg_thorough="Sessions_thorough.cfg"), dict(module="Sessions", cfg="Sessions_overlap.cfg"),
                        dict(module="Sessions", cfg="Sessions_scratch.cfg", fails="Stateless"), dict(module="Sessions", cfg="Sessions_clobber.cfg", fails="Kept"),
                        dict(module="AddrCodec"), dict(module="KeyTree"), dict(module="TxLifecycle"), dict(module="Combine"), dict(module="Codecs"), dict(module="Stream")],
                stages=[dict(dict(group=g, mode=",".join(ms), spec=t, scn=sc), **st)
                        for g, ms, t, sc, ev in [
                            ("addr", ["encode", "decode", "check"], "T_Addr", dict(encode="AddrCodec", decode="AddrCodec", check="AddrCodec"), (24, 2)),
                            ("hd", ["derive", "path", "refuse", "text"], "T_HD", dict(derive="KeyTree", text="AddrCodec"), (10, 1)),
                            ("btc", ["create", "digest", "sign", "verify", "sweep", "multi", "token", "decode"] + LEG, "T_Btc",
                             {"digest": "TxLifecycle", "verify": "TxLifecycle", "leg-digest": "TxLifecycle", "leg-verify": "TxLifecycle"}, (16, 2)),
                            ("alt", ["p14", "p15", "p16", "p17", "p18", "p19", "tamper", "sweep"], "T_Alt", dict({p: "Codecs" for p in ("p14", "p15", "p16", "p17", "p18", "p19")}, tamper="Combine"), (12, 2)),
                            ("codec", ["text", "hash"], "T_Codec", dict(hash="Stream"), (4, 1))]
                        for st in [dict(name="inter", style="inter", sched="Sessions", every=dict(quick=ev[0], thorough=ev[1]), scale=dict(quick=1, thorough=1)),
                                   dict(name="par", style="par", race=True, parts=4, every=dict(quick=ev[0], thorough=ev[1]), scale=dict(quick=1, thorough=1))]]),
    "P22": dict(models=[dict(module="TxLifecycle", cfg_thorough="TxLifecycle_thorough.cfg"), dict(module="TxForm")],
                stages=[dict(group="btc", mode=",".join(LEG), spec="T_Btc", scn={"leg-digest": "TxLifecycle", "leg-verify": "TxLifecycle", "leg-decode": "TxForm"}, scale=dict(quick=3, thorough=12))]),
    "P23": dict(models=[dict(module="Stream", cfg_thorough="Stream_thorough.cfg")],
                stages=[dict(group="codec", mode="text,hash", spec="T_Codec", scn={"hash": "Stream"}, scale=dict(quick=5, thorough=60))]),
}
NA = {}
