"""Recorder for the shipped data sets (C35).

usage: rec_shipped.py C35 NAMES.ndjson OUT.ndjson SEED
Reads each data set as it is (not through the code under test) and runs the
script that makes its station table in a directory of its own.
"""
import runpy
import shutil
import sys

from common import *  # noqa: F401,F403


def ascii_(x):
    """letters outside ASCII written out"""
    if isinstance(x, str):
        return x if x.isascii() else x.encode("unicode_escape").decode()
    if isinstance(x, dict):
        return {ascii_(k): ascii_(v) for k, v in x.items()}
    return [ascii_(v) for v in x] if isinstance(x, list) else x


def main():
    prop, src, out, seed = sys.argv[1:5]
    recs = []
    with open(src) as g:
        names = [json.loads(x) for x in g]
    for name in names:
        table = DATASETS[name][0]
        d = os.path.join(os.environ["VERIF_SCRATCH"], name)
        os.makedirs(d)
        os.chdir(d)
        # some of the scripts look at another table at the end
        shutil.copy(os.path.join(REPO, "data/important_stations.npz"), d)
        if not table.endswith("/important_stations.npz"):
            made = os.path.basename(table)
        else:
            made = "important_stations.npz"
            os.remove(os.path.join(d, made))
        _, err = call(runpy.run_path, os.path.join(REPO, table[:-4] + ".py"), run_name="__main__")
        st = np.load(made, allow_pickle=True)["arr_0"][()] if os.path.exists(made) else {}
        os.chdir("/")
        recs.append(ascii_(dict(name=name, err=err, w=dict(shipped_world(name), links=shipped_links()), script=[dict(name=k, tracks=list(v)) for k, v in st.items()])))
    dump(out, recs)


if __name__ == "__main__":
    main()
