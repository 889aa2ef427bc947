import sys
p='/verif/tools/checks.py'
s=open(p).read()
a,b=s.split('}\n\nNOT_APPL')
i=sys.argv[1]; runs=sys.argv[2]
s=a+f'''    '{i}': dict(
        runs=[{runs}],
        technique='x',
        level='exploration',
        rule='x'),
}}

NOT_APPL'''+b
open(p,'w').write(s)
