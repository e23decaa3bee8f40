"""What each check runs."""

def mc(module, cfg=None, **kw):
    return dict(module=module, cfg=(cfg or module) + ".cfg", **kw)


def front(profile, quick, thorough, mc=None):
    d = dict(mc=mc or [], family="front", profile=profile, trace="TraceFront", quick=dict(n=quick), thorough=dict(n=thorough))
    return d

def fam(family, trace, profile, quick, thorough, mc=None, deep=None, **kw):
    d = dict(family=family, profile=profile, trace=trace, quick=dict(n=quick), thorough=dict(n=thorough), mc=mc or [])
    if deep:
        d["thorough"]["mc"] = deep
    d.update(kw)
    return d


CHECKS = {
    "R01": front("R01", 1200, 12000, [mc("MCRouting")]),
    "R02": front("R02", 1200, 12000, [mc("MCRouting")]),
    "R03": front("R03", 800, 8000, [mc("MCFront", "MCFrontMethod")]),
    "R04": front("R04", 1000, 10000, [mc("MCFront", "MCFrontStatic")]),
    "R05": front("R05", 1000, 10000, [mc("MCFront", "MCFrontPlain")]),
    "R06": fam("groups", "TraceGroups", "R06", 1500, 15000, [mc("MCGroups")], [mc("MCGroups", "MCGroupsDeep", emit=2000)]),
    "C01": fam("groups", "TraceGroups", "C01", 600, 6000, [mc("MCGroups")], [mc("MCGroups", "MCGroupsDeep", emit=2000)]),
    "C03": fam("groups", "TraceGroups", "C03", 600, 6000, [mc("MCGroups")], [mc("MCGroups", "MCGroupsDeep", emit=2000)]),
    "P01": fam("groups", "TraceGroups", "P01", 600, 6000, [mc("MCGroups", "MCGroupsLists")], [mc("MCGroups", "MCGroupsListsDeep", emit=2000)]),
    "C02": fam("chain", "TraceChain", "C02", 600, 6000, [mc("MCChain", "MCChainOrder")], [mc("MCChain", "MCChainDeep", emit=4000)]),
    "S01": fam("chain", "TraceChain", "S01", 800, 8000, [mc("MCChain")], [mc("MCChain", "MCChainDeep", emit=4000)]),
    "S03": fam("chain", "TraceChain", "S03", 600, 6000, [mc("MCChain", "MCChainPanic")], [mc("MCChain", "MCChainDeep", emit=4000)]),
    "S05": fam("chain", "TraceChain", "S05", 800, 8000, [mc("MCChain", "MCChainExt")], [mc("MCChain", "MCChainExtDeep", emit=4000)], tags="extended"),
    "S04": fam("log", "TraceLog", "S04", 800, 8000, [mc("MCLog")], [mc("MCLog", "MCLogDeep", emit=4000)]),
    "E01": fam("environ", "TraceEnviron", "E01", 800, 8000, [mc("MCEnviron")], [mc("MCEnviron", "MCEnvironDeep", emit=3000)]),
    "M01": fam("cors", "TraceCors", "M01", 1500, 20000, [mc("MCCors")], [mc("MCCors", "MCCorsDeep", emit=4000)]),
    "Q01": fam("form", "TraceForm", "Q01", 800, 10000, [mc("MCForm")]),
    "Q02": fam("params", "TraceParams", "Q02", 1200, 15000, [mc("MCNum")], [mc("MCNum", "MCNumDeep", emit=5000)]),
    "Q03": fam("cookie", "TraceCookie", "Q03", 1000, 12000, [mc("MCCookie")]),
    "Q04": fam("client", "TraceClient", "Q04", 1500, 20000, [mc("MCClient")]),
    "Q05": fam("input", "TraceInput", "Q05", 500, 6000, [mc("MCInput")], [mc("MCInput", "MCInputDeep", emit=3000)]),
    "I01": fam("pool", "TracePool", "I01", 800, 8000, [mc("MCPool", "MCPoolSeq")], [mc("MCPool", "MCPoolSeqDeep", emit=4000)]),
    "I02": fam("pool", "TracePool", "I02", 500, 5000, [mc("MCPool", "MCPoolMix")], [mc("MCPool", "MCPoolMix", emit=3000), mc("MCPool", "MCPoolTri", emit=3000)], race=True),
    "B01": fam("bind", "TraceBind", "B01", 2000, 20000, [mc("MCBind", "MCBindSelect")], [mc("MCBind", "MCBindSelect", emit=12000)]),
    "B02": fam("bind", "TraceBind", "B02", 2000, 20000, [mc("MCBind", "MCBindFields")], [mc("MCBind", "MCBindFieldsDeep", emit=12000)]),
    "B03": fam("bind", "TraceBind", "B03", 2500, 20000, [mc("MCBind", "MCBindRules")], [mc("MCBind", "MCBindRules", emit=12000)]),
    "B04": fam("bind", "TraceBind", "B04", 1200, 12000, [mc("MCBind", "MCBindFiles")], [mc("MCBind", "MCBindFilesDeep", emit=12000)]),
    "B05": fam("bind", "TraceBind", "B05", 2000, 20000, [mc("MCBind", "MCBindGin")], [mc("MCBind", "MCBindGinDeep", emit=12000), mc("MCBind", "MCBindFilesDeep", emit=4000)]),
    "M02": fam("static", "TraceStatic", "M02", 1000, 12000, [mc("MCStatic")], [mc("MCStatic", "MCStaticDeep", emit=8000)]),
    "M03": fam("static", "TraceStatic", "M03", 800, 12000, [mc("MCStatic")], [mc("MCStatic", "MCStaticDeep", emit=4000)]),
    "N01": fam("mount", "TraceMount", "N01", 800, 8000, [mc("MCMount")], [mc("MCMount", "MCMountDeep", emit=3000)]),
    "S02": fam("resp", "TraceResp", "S02", 800, 10000, [mc("MCResp")], [mc("MCResp", "MCRespDeep", emit=4000)]),
    "D01": fam("resp", "TraceResp", "D01", 800, 10000, [mc("MCResp")], [mc("MCResp", "MCRespDeep", emit=4000)]),
}
