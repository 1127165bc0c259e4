#!/usr/bin/env python3
"""Lists the fix: commits of /repo as fixed entries of known_findings.json. Run by hand after new fixes: python3 tools/mkfixed.py"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BY = {
 'P01': '460e4cb fc42489 88bb41c b38360e 618b82e 6bf8859 b7d987c 6b8a591 68ff6ff',
 'P02': 'a5a0619 49cf959 c2f5cd0',
 'P03': 'dc933a3 e9ee0d8 a7712b3 92b79be ac5783f',
 'P06': '85c2591 448e7db c9f379b a4bcb79 256b2a7 9238fdb 7528c11 019c35a 59a5b86 8bf07d0 fa6d4c8 f83ebbd',
 'P07': '588661c 5bda6d0 904dbd4 90e4c1f 750fe83 3f92501 99b79a7 966bb73 9232b96 9ae876c e9c3872 117c801 cf672e0 bf4a3d9',
 'P08': 'd407712 76e0844 9c7da17',
 'P09': '5722198 5812ee1 b7ba02c 7ad678b c93f3dd',
 'P10': 'f13dfb9 356339f', 'P11': 'cecc65f',
 'P12': 'a81b4a2 4f00698 ea9507a b3f4636 a0900c0 7e23f1e d36ee31 4b779b8 1f3c865 1e6d94d 27eb5dc bac2142 bd4e7fe 35c28ee 7289329 6576e46 e947b0a',
 'P13': '8984dad 173e217 3ee727e 72e4896 7178fdd b1b9ccd',
 'P14': '30dec26 5f8e09b 46beb3c f2b596b',
 'P15': '743c63c 2c65b0c 5ef9f81', 'P16': '1a16523 10515f9',
 'P17': 'd7f704f 12af7c6 4081692 1d5f937 e7190c4 13a7e86',
 'P18': '72e75dd 61b9705 0ec4338 0438e69',
 'P19': '29fc7fe 38b9537', 'P20': 'e0912ee 994d562 ca7a4ab',
 'P21': '657d4fe db8ae8e 7bfc9b1 edadb1b 40fef72 4287523 e9e9891 a979b8e',
 'P22': '832a0b1',
 'P23': '59f33ed 3c7709b 8ecb86d da76056 b258319 088aa75 5cd1b60 cddc391 7b5b6bf d2ea774 8d9d530',
 'P24': '4bcf45a 1c022ad 680ba77 08985a2 f307931 98b2f7d 86d7f1a',
 'P25': '1fe0c91 8b19bf0 c00b26d b192313 22e203d',
 'P26': '9436f03 c92b723 85a3806 10e2559',
 'P27': 'ab81f85 5724137 d14a313 5328531 e84def6 f9aaee1',
 'P28': 'fa12044 17a69d7 75fadb4 9d51aeb 97552f9 d392599 5115486',
 'P29': '620a79b', 'P30': 'f28085a 9e0fe0a',
 'P31': 'e5475f7 babb405 389a85a 67a63d1 016f65d 1f63bba',
 'P32': '5c7f47e 8ece17a 02645ef 99499df d931917',
 'P33': '4bddaf0 a7553b2 a1b4711 e039f45',
 'P34': '9f9e104',
 'P36': '28bacaf 0e59c72 54abb2a c6200e6 1cfb8b7 53479b9 5ac751a 2103f15 f8c540c 85613a3 969e669 c8e29dd 7c0d255',
 'P35': '2c631f5 b0fc535 89ff4d4 d859696 6e9d768 d4b4542 d6d3178 5f519e1 a6d49f1 4284280 60f0bf1',
}
BY.update(json.load(open(os.path.join(HERE, 'tools', 'fixed_more.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'fixed_more.json')) else {})
prop = {c: p for p, cs in BY.items() for c in cs.split()}
log = subprocess.check_output(['git', '-C', os.environ.get('VP_REPO', '/repo'), 'log', '--reverse', '--format=%h %s', '5507b16..HEAD'], text=True)
fixed = []
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    assert h in prop, 'no property for %s %s' % (h, s)
    fixed.append('fixed: property=%s %s %s' % (prop[h], h, s[5:]))
f = os.path.join(HERE, 'known_findings.json')
known = json.load(open(f))['known']
with open(f, 'w') as fh:
    json.dump({'known': known, 'fixed': fixed}, fh, indent=1)
    fh.write('\n')
print(len(fixed), 'fixed')
