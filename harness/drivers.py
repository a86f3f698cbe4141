import drv_stats, drv_misc, drv_rt, drv_purity, drv_ds, drv_ci, drv_psd, drv_noise


def c01(rng, tier):
    return drv_stats.run(["adev", "oadev", "hdev", "ohdev"], rng, tier, huge=(40000, 70000, 140000) if tier == "quick" else (40000, 130000, 300000)) \
        + drv_misc.kernels(rng, "calc_hdev_phase", 25, 90)


def c02(rng, tier):
    return drv_stats.run(["mdev", "tdev", "pdev"], rng, tier, huge=(40000, 70000, 140000) if tier == "quick" else (40000, 130000, 300000))


def c03(rng, tier):
    return drv_stats.run(["totdev", "mtotdev", "ttotdev", "htotdev", "theo1"], rng, tier, exh=(3, 4, 5),
                         allmax={"mtotdev": 26, "ttotdev": 20, "htotdev": 26, "theo1": 40}, nrand=40,
                         mids=(50, 80, 120, 250), huge=(40000, 70000)) \
        + drv_misc.kernels(rng, "calc_mtotdev_phase", 14, 60) + drv_misc.kernels(rng, "calc_htotdev_freq", 14, 60)


def c04(rng, tier):
    return drv_stats.run(["mtie", "tierms"], rng, tier, bigs=(2000, 5000), huge=(40000, 70000, 140000), reps=3) + drv_misc.fasts(rng, tier)


DRIVERS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": drv_misc.c05, "C06": drv_misc.c06, "C07": drv_misc.c07, "C08": drv_purity.c08, "C09": drv_rt.c09, "C10": drv_rt.c10,
           "C13": drv_ds.run("life"), "C14": drv_ds.run("write"), "C15": drv_ds.run("plot"),
           "C11": drv_misc.c11, "C12": drv_misc.c12, "C25": drv_misc.c25,
           "C16": drv_ci.c16, "C17": drv_ci.c17, "C18": drv_ci.c18, "C21": drv_psd.c21, "C22": drv_psd.c22,
           "C19": drv_noise.c19, "C20": drv_noise.c20, "C23": drv_noise.c23, "C24": drv_noise.c24}
