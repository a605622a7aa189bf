"""Scratch copies of the demod working tree with offline stand-ins."""
import glob
import os
import shutil
import zipfile

REPO = os.environ.get("PBT_REPO", "/repo")


def _ignore(directory, names):
    return [n for n in names
            if n == "__pycache__" or n.endswith(".zip")
            or n == "inputs.ods"]


def make_tree(dest):
    """Copy /repo/demod to dest/demod and add what imports need offline.

    * GermanTOU/raw_data/<type>.zip and CREST/raw_data/*.xlsm only have to
      exist (the loaders test isfile() and then read the tracked parsed data).
    * RenewablesNinja raw csv: synthetic hourly data, written in the format of
      renewables.ninja.
    """
    src = os.path.join(REPO, "demod")
    out = os.path.join(dest, "demod")
    shutil.copytree(src, out, ignore=_ignore)
    ds = os.path.join(out, "datasets")

    gtou = os.path.join(ds, "GermanTOU", "raw_data")
    os.makedirs(gtou, exist_ok=True)
    for name in ("4_States", "Bottaccioli2018", "DemodActivities_0",
                 "Sparse9States"):
        path = os.path.join(gtou, name + ".zip")
        if not os.path.exists(path):
            open(path, "wb").close()

    crest = os.path.join(ds, "CREST", "raw_data")
    os.makedirs(crest, exist_ok=True)
    for version in ("2.2", "2.3.3"):
        path = os.path.join(crest, "CREST_Demand_Model_v%s.xlsm" % version)
        if not os.path.exists(path):
            open(path, "wb").close()

    ninja = os.path.join(ds, "RenewablesNinja", "raw_data")
    os.makedirs(ninja, exist_ok=True)
    for code in ("DE", "CH"):
        path = os.path.join(ninja, code + "_population.csv")
        if not os.path.exists(path):
            write_ninja_csv(path)
    return dest


def write_ninja_csv(path, start="2014-01-01", n_hours=24 * 900, rows=None):
    """A deterministic hourly climate in the format of renewables.ninja."""
    import datetime
    import math
    head = ("# synthetic\n# synthetic\n"
            "time,precipitation,temperature,irradiance_surface,irradiance_toa,"
            "snowfall,snow_mass,cloud_cover,air_density\n")
    t0 = datetime.datetime.fromisoformat(start)
    lines = [head]
    for i in range(n_hours):
        t = t0 + datetime.timedelta(hours=i)
        sun = max(0.0, math.sin((t.hour - 6) / 12.0 * math.pi))
        lines.append("%s,%g,%g,%g,%g,%g,%g,%g,%g\n" % (
            t.strftime("%Y-%m-%d %H:%M"), (i % 7) * 0.01,
            10 + 8 * math.sin(i / 8766 * 2 * math.pi) + 4 * sun,
            400 * sun, 200 * sun, 0, 0, (i % 11) / 11.0, 1.2))
    with open(path, "w") as f:
        f.writelines(lines)


def find_hypothesis(scratch):
    """Return a directory to add to sys.path that provides hypothesis only."""
    dest = os.path.join(scratch, "hyp")
    wheels = (sorted(glob.glob(
        "/opt/veriftools/wheels/hypothesis-*cp312-cp312*.whl"))[-1:]
        + sorted(glob.glob(
            "/opt/veriftools/wheels/sortedcontainers-*.whl"))[-1:])
    if len(wheels) == 2:
        for w in wheels:
            zipfile.ZipFile(w).extractall(dest)
        return dest
    site = glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages")[0]
    os.makedirs(dest, exist_ok=True)
    for name in os.listdir(site):
        if name.split(".")[0].split("-")[0] in (
                "hypothesis", "sortedcontainers", "_hypothesis_globals",
                "_hypothesis_ftz_detector", "_hypothesis_pytestplugin"):
            os.symlink(os.path.join(site, name), os.path.join(dest, name))
    return dest
