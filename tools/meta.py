#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json. `meta.py` rewrites both."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "subprojects/ufjfmltk-core/include/ufjfmltk/core/"
CS = "subprojects/ufjfmltk-core/src/"
CL = "subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/"
RG = "subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/"
KM = "subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/"
EN = "subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/"
VA = "subprojects/ufjfmltk-valid/include/ufjfmltk/valid/"
FS = "subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/"
VI = "subprojects/ufjfmltk-visual/"

P = []       # properties
M = []       # checks
NA = []      # not applicable

def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None,
         technique=None, level="exploration", note=None, na=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)
    if na:
        NA.append(dict(property=id, reason=na))
    elif technique:
        M.append(dict(property=id, quick_cmd=f"./check {id}", thorough_cmd=f"./check {id} --tier thorough",
                      technique=technique, level=level, level_note=note))
    else:
        NA.append(dict(property=id, reason="check under construction"))

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    man = dict(version=1, setup_cmd="./setup.sh",
               checks=M, not_applicable=NA,
               notes="No hooks in /repo: every seam is taken at the libc/pthread/libstdc++ ABI or by compiling "
                     "/repo's sources with -fsanitize=thread against the simulator's own __tsan_* runtime.")
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")

if __name__ == "__main__":
    main()
