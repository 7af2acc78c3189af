exec(open(__file__.replace('2.py','1.py')).read().split("open(base+'transport/requesttable.go'")[0])
edit('transport/conn.go',('''	conn            net.Conn
	requestTable''','''	conn            net.Conn
	reader          *bufio.Reader
	writeLock       sync.Mutex
	requestTable'''),('''	return writeMessageWithFrame(c.conn, message, c.frameWCfg)
''','''	var b bytes.Buffer
	if err := writeMessageWithFrame(&b, message, c.frameWCfg); err != nil {
		return err
	}
	c.writeLock.Lock()
	defer c.writeLock.Unlock()
	head := append([]byte(nil), b.Next(12)...)
	bufs := net.Buffers{head, b.Bytes()}
	_, err := bufs.WriteTo(c.conn)
	return err
'''),('''	return nextMessageHeaderAndBodyFromFrame(c.conn, c.frameRCfg)
''','''	if c.reader == nil {
		c.reader = bufio.NewReader(c.conn)
	}
	return nextMessageHeaderAndBodyFromFrame(c.reader, c.frameRCfg)
'''),('''import (
''','''import (
	"bufio"
	"bytes"
'''))
edit('transport/requesttable.go',('''	defer r.Close()
	select {
	case <-r.done:
		if reply = r.reply; reply == nil {
			err = errCancelled
		}
	case <-ctx.Done():
		err = ctx.Err()
	}
	return
''','''	stop := context.AfterFunc(ctx, func() { r.Close() })
	defer stop()
	<-r.done
	if reply = r.reply; reply == nil {
		err = errCancelled
		if ctx.Err() != nil {
			err = ctx.Err()
		}
	}
	return
'''))
edit('lease/agent.go',('''	incoming []net.Conn
''','''	incoming map[net.Conn]struct{}
'''),('''	for _, conn := range a.incoming {
''','''	for conn := range a.incoming {
'''),('''	a.incoming = append(a.incoming, conn)
''','''	if a.incoming == nil {
		a.incoming = make(map[net.Conn]struct{})
	}
	a.incoming[conn] = struct{}{}
'''),('''		for i, c := range a.incoming {
			if c == conn {
				a.incoming = append(a.incoming[:i], a.incoming[i+1:]...)
				break
			}
		}
''','''		delete(a.incoming, conn)
'''))
edit('federation/sitenode_sender.go',('''	ready  chan struct{} // closed when conn and err are set
''','''	ready  chan struct{} // closed when conn and err are set
	once   sync.Once
'''),('''	close(c.ready)
''','''	c.once.Do(func() { close(c.ready) })
'''),('''	"fmt"
''','''	"fmt"
	"sync"
'''))
