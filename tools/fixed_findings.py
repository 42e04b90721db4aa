import subprocess,json
rows='''4655fb4 C05;8ef7bde C06;0927bcd C06;5b56b25 C07;f82a390 C16;c9622e3 C16;47b899b C16;78cd4fc C16;3d0f649 C16;3ae42e2 C04;ed9a13e C04;ba9107f C03;adf84cb C02;27ecf15 C02;63f917d C22;603b261 C17;7a594af C17;c0a100d C17;6cb2f31 C16;abfa244 C04;dc93440 C04;b3973cc C20;61d1289 C20;c5e1449 C20;4506724 C02;8ba00ca C18;567c07d C01;befc000 C10;535ddcd C10;e2e36f4 C08;eb288be C08;73037f1 C08;fd41017 C18;8adccd7 C08;72e0730 C13;8a45202 C09;7486095 C09;08bf41f C12;17c643b C17;d3ab8b6 C10;003f038 C14;29c6f5c C14;7457080 C12;3d82c64 C11;2ffa199 C15;8464c09 C15;fb19d61 C15;ae33abd C19;71977cf C19;b00b44b C18;4f5049f C21;91aeb69 C21;3394a2d C21;71af732 C21;fc661ce C11;f1d2a1a C15;66b8980 C18;5313cf4 C04;473c5ce C24;53755d7 C24;e2c72e7 C24;82a4886 C24;37ec5d5 C24;f8d0065 C24;ecc11a2 C24;b10f793 C24;fcc908b C24;b2aef02 C24;63b967a C24;921b12c C24;1d2da12 C25;84ea2e7 C25;ff316b0 C25;b4178d9 C25;c2b84ec C25;16a7a41 C07;354ac02 C26;047c476 C26;2ba8e31 C26;c1521f4 C26;2bd3c8d C26;8740d9c C26;8a45f0b C27;d4d6d3c C28;4af5b93 C28;e2a3201 C16;c5f95e0 C06;e0c7b6d C14;8b7a2a2 C14;72a9a36 C16;bebc3e9 C16;30c9645 C26;5a523b1 C26;3de56a8 C22;900a17a C26;fcecd78 C27;3cbde26 C27'''
m=dict(x.split() for x in rows.split(';'))
out=[]
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','67786dd..HEAD'],text=True).splitlines()

for l in log:
    h,s=l.split(' ',1)
    out.append(f"fixed: property={m[h]} {h} {s.removeprefix('fix: ')}")
d={"findings":[],"fixed":out}
json.dump(d,open('/verif/known_findings.json','w'),indent=1)
print(len(out))
