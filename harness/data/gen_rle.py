import unicodedata as u
P=open('perl.txt').read().split()
rows=[]
for c in range(0x110000):
    k=P[c]+('C' if 'COMBINING' in u.name(chr(c),'') else '-')
    if rows and rows[-1][2]==k: rows[-1][1]=c
    else: rows.append([c,c,k])
with open('/verif/harness/data/unicode15.txt','w') as f:
    f.write("# Unicode 15.0.0, from the perl 5.38 unicore tables (East_Asian_Width, Extended_Pictographic) and Python unicodedata 15.0 names.\n# first..last class: EAW letter (n = Na), Extended_Pictographic 0/1, C = COMBINING in the name\n")
    for a,b,k in rows: f.write("%X %X %s\n"%(a,b,k))
