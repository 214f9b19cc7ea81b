#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the list below: a patch against /repo's HEAD made by replacing text,
and a demonstration (main.rs + mock.rs + demo.sh)."""
import subprocess, os, shutil, json, sys
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
R = "/tmp/seedgen"
SEEDS = []

def seed(id, prop, needs, breaks, file, pairs, main, extra=()):
    SEEDS.append((id, prop, needs, breaks, [(file, pairs)] + list(extra), main))

IO="src/connection/io.rs"; AU="src/connection/auth.rs"; IN="src/connection/init.rs"; RS="src/connection/result_set.rs"; Q="src/connection/query.rs"; PS="src/connection/prepared_statement.rs"
AP="src/connection/types/auth_plugin.rs"; CR="src/utils/crypt.rs"; HR="src/connection/packets/handshake_response.rs"; HS="src/connection/packets/handshake.rs"
BIN="src/types/value/bin.rs"; TX="src/types/value/text.rs"; CV="src/types/value/conversion.rs"; EX="src/connection/packets/stmt_execute_request.rs"; PB="src/connection/parse_buf.rs"; OK="src/connection/packets/ok.rs"
NB="src/connection/types/null_bitmap.rs"; BM="src/utils/buf_mut_ext.rs"; MG="src/migrator/migrator_inner.rs"; MI="src/migrator/migration.rs"; MC="macros/src/lib.rs"; ER="src/connection/packets/err.rs"

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds.py")).read())

def main():
    only = sys.argv[1:]
    if not os.path.exists(R):
        subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
    subprocess.run(f"cd {R} && git fetch -q && git reset -q --hard origin/HEAD", shell=True, check=True)
    here = os.path.dirname(os.path.abspath(__file__))
    for id, prop, needs, breaks, files, main in SEEDS:
        if only and id not in only:
            continue
        for f, pairs in files:
            p = f"{R}/{f}"
            s = open(p).read()
            for a, b in pairs:
                assert s.count(a) >= 1, (id, a)
                s = s.replace(a, b, 1)
            open(p, "w").write(s)
        d = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
        o = f"{V}/seeded/{id}"
        os.makedirs(o, exist_ok=True)
        open(f"{o}/patch.diff", "w").write(d)
        body = "mod mock;\n#[allow(unused_imports)]\nuse mock::*;\n" + main.strip("\n") + "\n"
        open(f"{o}/main.rs", "w").write(body)
        shutil.copy(f"{here}/mock.rs", o)
        shutil.copy(f"{here}/demo.sh", o)
        os.chmod(f"{o}/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{o}/meta.json", "w"), indent=1)
        open(f"{o}/meta.json", "a").write("\n")
    shutil.rmtree("/tmp/seedgen")

main()
