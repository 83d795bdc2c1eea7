# helper for edits of possibly CRLF files: ed(path, [(old,new),...]) with LF text
def ed(p, subs):
    s=open(p,newline='').read(); crlf='\r\n' in s
    if crlf: s=s.replace('\r\n','\n')
    for o,n in subs:
        assert s.count(o)==1,(p,s.count(o),o)
        s=s.replace(o,n)
    if crlf: s=s.replace('\n','\r\n')
    open(p,'w',newline='').write(s)
