"""One-off: wrote sim/src/tables.rs, the reference copy of the character tables, from the pinned tree."""
import re,sys
D='/repo/thermal_parser/src/decoder/'
def strs(f):
    s=open(D+f,encoding='utf8').read()
    s=s[s.index('&[',s.index('= (')):]
    s=re.sub(r'//[^\n"]*\n','\n',s)
    return re.findall(r'"(?:[^"\\]|\\.)*"',s)
out=['//! Reference copy of the character tables (see tools/gen_tables.py).','#![cfg_attr(rustfmt, rustfmt_skip)]']
base=strs('codepage_base.rs'); assert len(base)==128,len(base)
out.append('pub static BASE: [&str; 128] = [%s];'%', '.join(base))
pages={0:'codepage_0_437',1:'codepage_1_katakana',2:'codepage_2_pc850',3:'codepage_3_pc860',4:'codepage_4_pc863',5:'codepage_5_pc865',11:'codepage_11_pc851',12:'codepage_12_pc853',13:'codepage_13_pc857'}
out.append('pub fn page(n: u8) -> &\'static [&\'static str; 128] { match n {')
for n,f in pages.items():
    t=strs(f+'.rs'); assert len(t)==128,(f,len(t))
    out.insert(3,'pub static P%d: [&str; 128] = [%s];'%(n,', '.join(t)))
    if n: out.append('    %d => &P%d,'%(n,n))
out.append('    _ => &P0,\n} }')
src=open(D+'international.rs',encoding='utf8').read()
langs={}
for m in re.finditer(r'pub static (\w+): Language = \((.*?)\);',src,re.S):
    body=re.sub(r'//[^\n"]*\n','\n',m.group(2))
    langs[m.group(1)]=re.findall(r'\((0x[0-9A-Fa-f]+|\d+), ("(?:[^"\\]|\\.)*")\)',body)
ids=dict(zip(range(0,18),'USA FRANCE GERMANY UK DENMARK_I SWEDEN ITALY SPAIN_I JAPAN NORWAY DENMARK_II SPAIN_II LATIN_AMERICA KOREA SLOVENIA CHINA VIETNAM ARABIA'.split()))
ids.update(zip(range(66,76),'DEVANAGARI BENGALI TAMIL TELUGU ASSAMESE ORIYA KANNADA MALAYALAM GUJARATI PUNJABI'.split()))
ids[82]='MARATHI'
assert set(ids.values())==set(langs),(set(langs)^set(ids.values()))
out.append('pub fn language(n: u8) -> &\'static [(u8, &\'static str)] { match n {')
for n,k in ids.items():
    if n: out.append('    %d => &[%s],'%(n,', '.join('(%s, %s)'%x for x in langs[k])))
out.append('    _ => &[],\n} }')
out.append('''
pub fn decode(table: u8, charset: u8, b: u8) -> &'static str {
    let mut s = if b < 128 { BASE[b as usize] } else { page(table)[b as usize - 128] };
    for (i, r) in language(charset) {
        if *i == b {
            s = r;
        }
    }
    s
}
''')
open('/verif/sim/src/tables.rs','w',encoding='utf8').write('\n'.join(out))
