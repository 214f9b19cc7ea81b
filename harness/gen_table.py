import re,glob,os
d=os.path.dirname(os.path.abspath(__file__))
o=[]
for f in sorted(glob.glob(d+"/src/*.rs")):
    m=os.path.basename(f)[:-3]
    for n in re.findall(r"#\[no_mangle\]\n#\[inline\(never\)\]\npub fn (h_\w+)",open(f).read()):
        o.append(f"    {m}::{n},\n")
open(d+"/src/table.rs","w").write("table! {\n"+"".join(o)+"}\n")
