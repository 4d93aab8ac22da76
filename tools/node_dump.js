// prints: cp nfd cps | nfkd cps | nfc cps | M? | Cn?
const out=[];
for(let c=0;c<0x110000;c++){ if(c>=0xD800&&c<=0xDFFF)continue;
 const s=String.fromCodePoint(c);
 const h=f=>[...s.normalize(f)].map(x=>x.codePointAt(0).toString(16)).join(' ');
 const a=h('NFD'),b=h('NFKD'),d=h('NFC'),e=h('NFKC');
 const m=/\p{M}/u.test(s)?1:0, cn=/\p{Cn}/u.test(s)?1:0;
 out.push(`${c.toString(16)}|${a}|${b}|${d}|${e}|${m}|${cn}`);
}
require('fs').writeFileSync('/tmp/node_dump.txt',out.join('\n')+'\n');
