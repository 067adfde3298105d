import os, json, itertools
L=[]
for i in sorted(os.listdir('/verif/seeded')):
    L.append((json.load(open(f'/verif/seeded/{i}/meta.json'))['property'], i))
out="| check | planted bugs it catches (quick tier, its own VIOLATION line) |\n|---|---|\n"
for k,g in itertools.groupby(L,key=lambda x:x[0]):
    out+=f"| {k} | "+", ".join(i[4:] for _,i in g)+" |\n"
s=open('/verif/DESIGN.md').read()
head="## Planted bugs\n"
text=head+f"""
{len(L)} changes in seeded/ break one property each while the stable tests pass. All were written from the statement and the code; each is
caught by the quick check of its property:

{out}
Missed when first planted, and what was strengthened: C15-resize-in-place (conversions then watch the original), C08-glob-names
(image names that extend one another), C17-resample-input (requests that need no resampling; upside-down rasters), C03-unweighted-sigma
(moments recomputed from the recorded particles), C01 (runs that all raise no longer count), C24-cancelling-coefficients
(values that cancel), C25-opposite-tangential (opposite signs). Automatic mutants (random changes of operators,
constants, branches and statements; not kept) were used in the same way: those that pass the tests and survive the checks of
their file were read one by one, and checks extended where the change breaks a property (e.g. defaulted parameters in C25).
`tools/reach.py` lists the lines of /repo/src no run of the checks reaches.

"""
if head in s:
    i=s.index(head); j=s.index("## False alarms"); s=s[:i]+text+s[j:]
else:
    j=s.index("## False alarms"); s=s[:j]+text+s[j:]
open('/verif/DESIGN.md','w').write(s)
