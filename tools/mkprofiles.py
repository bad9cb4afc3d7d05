# One-off transcription of the network table into TLA+ (spec/lib/AddrProfiles.tla). Not run by any check:
# the committed table is the specification, so that a change of the Go table is noticed.
import re
src=open('/repo/addressEncoder/encoderProfile.go').read()
al={m[1]:m[2] for m in re.finditer(r'(\w+Alphabet)\s*=\s*"([^"]*)"',src)}
consts={'EOSPublicKeyPrefixCompat':'EOS','AEPrefixAccountPubkey':'ak_'}
names={'123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz':'B58','rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz':'XRP58','qpzry9x8gf2tvdw0s3jn54khce6mua7l':'B32','':'NoAlpha'}
rows=[]
for m in re.finditer(r'^\s*(\w+)\s*=\s*AddressType\{(.*?)\}\s*(?://.*)?$',src,re.M):
    n,b=m[1],m[2]
    mm=re.match(r'"(\w+)",\s*("\w*"|\w+),\s*"(\w*)",\s*"(\w*)",\s*(\d+),\s*(nil|\[\]byte[({].*?[)}]),\s*(nil|\[\]byte\{.*\})$',b)
    enc,a,chk,h,l,p,s=mm.groups()
    a=al[a] if a in al else a.strip('"')
    def by(x):
        if x=='nil': return '<<>>'
        k=re.match(r'\[\]byte\((\w+)\)',x)
        if k: return '<<'+','.join(str(ord(c)) for c in consts[k[1]])+'>>'
        return '<<'+','.join(str(int(v.strip(),0)) for v in x[x.index('{')+1:-1].split(','))+'>>'
    rows.append(f'  [name |-> "{n}", enc |-> "{enc}", alpha |-> {names[a]}, chk |-> "{chk}", hash |-> "{h}", len |-> {l}, pre |-> {by(p)}, suf |-> {by(s)}]')
out='''---------------------------- MODULE AddrProfiles ----------------------------
(* The supported networks: how each writes an address or key as text.       *)
EXTENDS Naturals, Sequences
B58   == "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
XRP58 == "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"
B32   == "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
NoAlpha == ""
Profiles == <<
'''+',\n'.join(rows)+'''
>>
ProfileNames == {Profiles[i].name : i \\in 1..Len(Profiles)}
Profile == [n \\in ProfileNames |-> Profiles[CHOOSE i \\in 1..Len(Profiles) : Profiles[i].name = n]]
=============================================================================
'''
open('/verif/spec/lib/AddrProfiles.tla','w').write(out)
print(len(rows))
