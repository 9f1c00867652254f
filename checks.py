"""Which harness decides which property, and what it needs from the repository."""
# key: property id.  tree: which build of the repository ('vital' or 'kwsys').
# targets: what to build there; libs: what to link; src: harness sources.
CFG = dict(tree="vital", targets=["vital_config"], libs=["vital_config", "vital_logger", "kwiversys"])
ALL = dict(tree="vital", targets=["vital", "vital_config", "vital_logger", "kwiversys"],
           libs=["vital", "vital_config", "vital_logger", "kwiversys"])
KW = dict(tree="kwsys", targets=["kwsys"], libs=["kwsys"])

CHECKS = {
    "C01": dict(CFG, src=["config_store.cpp"]),
    "C02": dict(CFG, src=["config_store.cpp"], cxxflags="-DRO_PART"),
    "C03": dict(ALL, src=["config_types.cpp"]),
    "C04": dict(CFG, src=["config_write.cpp"]),
    "C05": dict(CFG, src=["config_parse.cpp"]),
    "C06": dict(CFG, src=["config_parse.cpp"], cxxflags="-DMALFORMED"),
    "C07": dict(CFG, src=["config_search.cpp"]),
    "C08": dict(ALL, src=["image.cpp"]),
    "C09": dict(ALL, src=["tracks.cpp"]),
    "C10": dict(ALL, src=["timestamps.cpp"]),
    "C11": dict(ALL, src=["rotation.cpp"]),
    "C12": dict(ALL, src=["rotation.cpp"], cxxflags="-DSIMILARITY"),
    "C13": dict(ALL, src=["camera.cpp"]),
    "C15": dict(ALL, src=["values.cpp"]),
    "C16": dict(ALL, src=["io_files.cpp"], cxxflags="-DKRTD_PART"),
    "C17": dict(ALL, src=["io_files.cpp"], cxxflags="-DTABLE_PART"),
    "C18": dict(ALL, src=["io_files.cpp"], cxxflags="-DBAD_PART"),
    "C14": dict(ALL, src=["epipolar.cpp"]),
    "C20": dict(ALL, src=["plugins.cpp"], targets=ALL["targets"] + ["vital_apm"], libs=["vital_apm"] + ALL["libs"],
                plugins={"plug.so": ("plugin_algo.cpp", ""), "plug_nofunc.so": ("plugin_algo.cpp", "-DNO_FUNCTION")}),
    "C21": dict(ALL, src=["algo_bases.cpp"]),
    "C22": dict(CFG, src=["logger.cpp"], targets=["vital_logger"], libs=["vital_logger", "kwiversys"],
                plugins={"logplug.so": ("logger_plugin.cpp", ""), "logplug_nofunc.so": ("logger_plugin.cpp", "-DNO_FUNCTION")}),
    "C23": dict(ALL, src=["capi.cpp"], targets=ALL["targets"] + ["vital_c", "vital_apm"], libs=["vital_c", "vital_apm"] + ALL["libs"]),
    "C24": dict(ALL, src=["util.cpp"], targets=ALL["targets"] + ["vital_apm", "plugin_explorer"],
                plugins={"plug.so": ("plugin_algo.cpp", "")}, programs={"paths_helper": "paths_helper.cpp"}),
    "C26": dict(KW, src=["fileops.cpp"]),
    "C25": dict(KW, src=["kwpaths.cpp"]),
    "C29": dict(KW, src=["text.cpp"]),
    "C28": dict(KW, src=["cmdline.cpp"]),
    "C27": dict(KW, src=["regex.cpp"]),
    "C30": dict(ALL, src=["pybind.cpp"], targets=ALL["targets"] + ["vital_c", "vital_apm"], libs=["vital_c", "vital_apm"] + ALL["libs"],
                cxxflags="-isystem /usr/include/python3.12", ldflags="-lpython3.12", plugins={"plug.so": ("plugin_algo.cpp", "")},
                env={"VERIF_PYDRIVER": "{here}/harness/pydriver.py", "VERIF_PYROOT": "{repo}/vital/bindings/python", "VERIF_TREE": "{b}"}),
    "C31": dict(KW, src=["process.cpp"], programs={"prochelper": ("prochelper.cpp", "-fno-sanitize=all -static-libgcc -static-libstdc++")}),
    "C33": dict(KW, src=["codecs.cpp"]),
    "C34": dict(KW, src=["containers.cpp"]),
    "C36": dict(KW, src=["launcher.cpp", "launch_plain.cpp", "launch_config.cpp", "launch_bare.cpp"], programs={"launchhelper": ("launchhelper.cpp", "-fno-sanitize=all -static-libgcc -static-libstdc++")}),
    "C37": dict(ALL, src=["errors.cpp"]),
    "C38": dict(ALL, tree="tsan", scale=2, src=["threads.cpp"], targets=ALL["targets"] + ["vital_c", "vital_apm"], libs=["vital_c", "vital_apm"] + ALL["libs"]),
    "C35": dict(KW, src=["glob.cpp"]),
    "C32": dict(ALL, src=["sysinfo.cpp"]),
    "C19": dict(ALL, src=["algos.cpp", "algo_types.cpp"]),
}

# the number of random cases is set so that a quick search takes some ten seconds on eight cores
for _id, _scale in dict(C03=5, C08=3, C09=1.5, C10=3, C11=4, C12=4, C13=4, C14=4, C15=4, C16=3, C17=2, C18=1.5, C20=1.5, C21=6, C22=1.5, C25=4, C26=2.5, C27=5, C28=5, C29=5).items():
    CHECKS[_id]["scale"] = _scale
