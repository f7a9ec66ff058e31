# every behaviour-keeping edit of the other files, against every check
import glob, os, runpy
CASES=[]
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)),'muts_*.py'))):
    if 'allok' in f: continue
    for c in runpy.run_path(f)["CASES"]:
        if c[3]=='ok': CASES.append((c[0],["all"],c[2],'ok'))
