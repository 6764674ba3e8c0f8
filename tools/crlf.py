import subprocess,sys
def edit(path, *pairs):
    raw=open(path,'rb').read().decode('utf-8')
    crlf='\r\n' in raw
    s=raw.replace('\r\n','\n')
    for a,b in pairs:
        assert s.count(a)==1,(path,s.count(a),a)
        s=s.replace(a,b)
    if crlf: s=s.replace('\n','\r\n')
    open(path,'wb').write(s.encode('utf-8'))
