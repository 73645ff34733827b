package fsim

import (
	"encoding/binary"
	"sort"
	"syscall"

	"gosim/wire"
)

func (m *Machine) prep(name string, dirfd int, path string, follow bool) (c *opctx, par *inode, base string, nd *inode, canon string, err error) {
	if m.Latency != nil {
		m.Latency()
	}
	m.mu.Lock()
	c = m.enter(name, path)
	ap, err := m.abs(c.p, dirfd, path)
	if err == nil && path == "" {
		err = syscall.ENOENT
	}
	if err == nil {
		par, base, nd, canon, err = m.walk(ap, follow, 0)
	}
	if canon == "" {
		canon = ap
	}
	c.path = canon
	return
}

func (m *Machine) Openat(dirfd int, path string, flags int, mode uint32) (int, error) {
	c, par, base, nd, canon, err := m.prep("open", dirfd, path, flags&syscall.O_NOFOLLOW == 0)
	wr := flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0
	class := "open"
	if wr || flags&syscall.O_CREAT != 0 {
		class = "create"
	}
	c.name = class
	m.strike(c, class, canon, 0)
	fd, e := -1, error(nil)
	defer func() { m.leave(c, int64(fd), e) }()
	if err != nil {
		e = err
		return fd, e
	}
	if be := m.bad(canon, true); be != nil {
		m.badHit(c, be)
		e = be
		return fd, e
	}
	if en, ok := errFor[c.fault]; ok {
		e = en
		return fd, e
	}
	if nd == nil {
		if flags&syscall.O_CREAT == 0 {
			e = syscall.ENOENT
			return fd, e
		}
		if m.quota == 0 && m.cfg.Quota >= 0 {
			c.fault = "diskfull"
			m.res.Fired = append(m.res.Fired, wire.Fault{Proc: c.pi, Op: c.n, Kind: "diskfull"})
			e = syscall.ENOSPC
			return fd, e
		}
		nd = &inode{ino: m.ino(), kind: 'f', mode: mode & 0777 &^ 022, mtime: m.clock}
		par.ents[base] = nd
	} else {
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			e = syscall.EEXIST
			return fd, e
		}
		if nd.kind == 'l' {
			e = syscall.ELOOP
			return fd, e
		}
		if nd.kind == 'd' && wr {
			e = syscall.EISDIR
			return fd, e
		}
		if nd.kind != 'd' && flags&syscall.O_DIRECTORY != 0 {
			e = syscall.ENOTDIR
			return fd, e
		}
		if wr && flags&syscall.O_TRUNC != 0 {
			nd.data = nil
			nd.owned = true
			nd.mtime = m.clock
		} else if class == "create" && flags&syscall.O_TRUNC == 0 && flags&syscall.O_CREAT == 0 {
			c.name = "open"
		}
	}
	m.nextFd++
	fd = m.nextFd
	m.fds[fd] = &openFile{proc: c.pi, node: nd, path: canon, flags: flags}
	return fd, e
}

func (m *Machine) fdop(name string, fd int) (*opctx, *openFile) {
	if m.Latency != nil && fd > 2 {
		m.Latency()
	}
	m.mu.Lock()
	path := "fd"
	f := m.fds[fd]
	if f != nil {
		path = f.path
	} else if fd == 1 {
		path = "stdout"
	} else if fd == 2 {
		path = "stderr"
	}
	c := m.enter(name, path)
	f = m.fds[fd]
	return c, f
}

func (m *Machine) Read(fd int, p []byte) (n int, e error) {
	c, f := m.fdop("read", fd)
	defer func() { m.leave(c, int64(n), e) }()
	n, e = m.readAt(c, f, p, -1)
	return
}

func (m *Machine) Pread(fd int, p []byte, off int64) (n int, e error) {
	c, f := m.fdop("read", fd)
	defer func() { m.leave(c, int64(n), e) }()
	n, e = m.readAt(c, f, p, off)
	return
}

func (m *Machine) readAt(c *opctx, f *openFile, p []byte, off int64) (int, error) {
	if f == nil {
		return -1, syscall.EBADF
	}
	if f.node.kind == 'd' {
		return -1, syscall.EISDIR
	}
	if f.flags&syscall.O_WRONLY != 0 {
		return -1, syscall.EBADF
	}
	m.strike(c, "read", f.path, 0)
	if en, ok := errFor[c.fault]; ok {
		return -1, en
	}
	o := off
	if off < 0 {
		o = f.off
	}
	if f.bad {
		return -1, syscall.EIO
	}
	n := 0
	if o < int64(len(f.node.data)) {
		n = copy(p, f.node.data[o:])
	}
	if c.fault == "read-short" && n > 1 {
		n = 1 + int(c.arg%int64(n-1))
	}
	if c.fault == "read-bad" {
		// the file is good up to here; the rest cannot be read
		f.bad = true
		if n < 2 {
			return -1, syscall.EIO
		}
		cut := 1 + int(c.arg%int64(n-1))
		if c.arg&1 == 1 {
			// just before something that starts a line
			for i := cut; i+1 < n; i++ {
				if p[i] == '\n' && p[i+1] == '(' {
					cut = i + 1
					break
				}
			}
		}
		n = cut
	}
	if off < 0 {
		f.off += int64(n)
	}
	return n, nil
}

func (m *Machine) Write(fd int, p []byte) (n int, e error) {
	c, f := m.fdop("write", fd)
	defer func() { m.leave(c, int64(n), e) }()
	if f == nil {
		if fd == 1 {
			c.p.res.Stdout = append(c.p.res.Stdout, p...)
			n = len(p)
			return
		}
		if fd == 2 {
			c.p.res.Stderr = append(c.p.res.Stderr, p...)
			n = len(p)
			return
		}
		n, e = -1, syscall.EBADF
		return
	}
	n, e = m.writeAt(c, f, p, -1)
	return
}

func (m *Machine) Pwrite(fd int, p []byte, off int64) (n int, e error) {
	c, f := m.fdop("write", fd)
	defer func() { m.leave(c, int64(n), e) }()
	if f == nil {
		n, e = -1, syscall.EBADF
		return
	}
	n, e = m.writeAt(c, f, p, off)
	return
}

func (m *Machine) writeAt(c *opctx, f *openFile, p []byte, off int64) (int, error) {
	if f.flags&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
		return -1, syscall.EBADF
	}
	m.strike(c, "write", f.path, len(p))
	o := off
	if off < 0 {
		o = f.off
		if f.flags&syscall.O_APPEND != 0 {
			o = int64(len(f.node.data))
		}
	}
	n := len(p)
	var ret error
	switch c.fault {
	case "write-eio":
		// part of the data may have reached the file before the error
		n = int(c.arg)
		ret = syscall.EIO
	case "write-enospc":
		n = int(c.arg)
		if n == 0 {
			ret = syscall.ENOSPC
		} else {
			m.quota = 0 // the disk is full from here on
			m.cfg.Quota = 0
		}
	case "write-short":
		if n > 1 {
			n = 1 + int(c.arg%int64(n-1))
		}
	case "write-eintr":
		return -1, syscall.EINTR
	case "kill", "power":
		n = int(c.arg)
	}
	if m.cfg.Quota >= 0 {
		if int64(n) > m.quota {
			n = int(m.quota)
			if c.fault == "" {
				c.fault = "diskfull"
			}
			m.res.Fired = append(m.res.Fired, wire.Fault{Proc: c.pi, Op: c.n, Kind: "diskfull"})
			if n == 0 {
				ret = syscall.ENOSPC
			}
		}
		m.quota -= int64(n)
	}
	if n > len(p) {
		n = len(p)
	}
	nd := f.node
	end := o + int64(n)
	if !nd.owned {
		nd.data = append(make([]byte, 0, len(nd.data)+n), nd.data...)
		nd.owned = true
	}
	for int64(len(nd.data)) < end {
		nd.data = append(nd.data, make([]byte, end-int64(len(nd.data)))...)
	}
	copy(nd.data[o:end], p[:n])
	nd.mtime = m.clock
	f.wrote = true
	if off < 0 {
		f.off = end
	}
	if ret != nil {
		return -1, ret
	}
	return n, nil
}

func (m *Machine) Close(fd int) (e error) {
	c, f := m.fdop("close", fd)
	defer func() { m.leave(c, 0, e) }()
	if f == nil {
		return syscall.EBADF
	}
	if f.wrote {
		m.strike(c, "close", f.path, len(f.node.data))
	} else {
		m.strike(c, "closero", f.path, 0)
	}
	delete(m.fds, fd)
	if c.fault == "close-eio" {
		// write-back failed: the tail of the file never made it to the disk
		nd := f.node
		if int(c.arg) < len(nd.data) {
			nd.data = append([]byte{}, nd.data[:c.arg]...)
			nd.owned = true
		}
		return syscall.EIO
	}
	return nil
}

func (m *Machine) fill(nd *inode, st *syscall.Stat_t) {
	*st = syscall.Stat_t{}
	st.Ino = uint64(nd.ino)
	st.Dev = 1
	st.Nlink = 1
	st.Mode = nd.mode & 07777
	switch nd.kind {
	case 'd':
		st.Mode |= syscall.S_IFDIR
	case 'l':
		st.Mode |= syscall.S_IFLNK
		st.Size = int64(len(nd.target))
	default:
		st.Mode |= syscall.S_IFREG
		st.Size = int64(len(nd.data))
	}
	st.Blksize = 4096
	st.Mtim.Sec, st.Mtim.Nsec = nd.mtime/1e9, nd.mtime%1e9
	st.Ctim, st.Atim = st.Mtim, st.Mtim
}

func (m *Machine) Fstatat(dirfd int, path string, st *syscall.Stat_t, flags int) (e error) {
	c, _, _, nd, canon, err := m.prep("stat", dirfd, path, flags&0x100 == 0)
	defer func() { m.leave(c, 0, e) }()
	m.strike(c, "stat", canon, 0)
	if err != nil {
		return err
	}
	if be := m.bad(canon, false); be != nil {
		m.badHit(c, be)
		return be
	}
	if en, ok := errFor[c.fault]; ok {
		return en
	}
	if nd == nil {
		return syscall.ENOENT
	}
	m.fill(nd, st)
	return nil
}

func (m *Machine) Fstat(fd int, st *syscall.Stat_t) (e error) {
	c, f := m.fdop("fstat", fd)
	defer func() { m.leave(c, 0, e) }()
	if f == nil {
		if fd == 1 || fd == 2 {
			*st = syscall.Stat_t{}
			st.Mode = syscall.S_IFIFO
			return nil
		}
		return syscall.EBADF
	}
	// descriptors are examined by the os package itself when it opens a
	// file, where a failure is not reported to the caller: no fault here
	m.strike(c, "fstat0", f.path, 0)
	m.fill(f.node, st)
	return nil
}

func (m *Machine) Getdents(fd int, buf []byte) (n int, e error) {
	c, f := m.fdop("getdents", fd)
	defer func() { m.leave(c, int64(n), e) }()
	if f == nil {
		return -1, syscall.EBADF
	}
	if f.node.kind != 'd' {
		return -1, syscall.ENOTDIR
	}
	m.strike(c, "getdents", f.path, 0)
	if c.fault == "dir-eio" || f.dirEIO {
		return -1, syscall.EIO
	}
	if !f.listed {
		f.listed = true
		for k := range f.node.ents {
			f.ents = append(f.ents, k)
		}
		sort.Strings(f.ents)
		if m.cfg.ShuffleDir {
			for i := len(f.ents) - 1; i > 0; i-- {
				j := m.drnd.N(i + 1)
				f.ents[i], f.ents[j] = f.ents[j], f.ents[i]
			}
		}
		f.ents = append([]string{".", ".."}, f.ents...)
	}
	limit := len(f.ents)
	if c.fault == "dir-part" {
		f.dirEIO = true
		if rest := len(f.ents) - f.entPos; rest > 0 {
			limit = f.entPos + int(c.arg%int64(rest+1))
		}
		if limit == f.entPos {
			return -1, syscall.EIO
		}
	}
	for f.entPos < limit {
		name := f.ents[f.entPos]
		nd := f.node.ents[name]
		if name == "." || name == ".." {
			nd = f.node
		}
		if nd == nil {
			f.entPos++
			continue
		}
		rl := (19 + len(name) + 1 + 7) &^ 7
		if n+rl > len(buf) {
			break
		}
		b := buf[n : n+rl]
		clear(b)
		binary.LittleEndian.PutUint64(b[0:], uint64(nd.ino))
		binary.LittleEndian.PutUint64(b[8:], uint64(f.entPos+1))
		binary.LittleEndian.PutUint16(b[16:], uint16(rl))
		b[18] = map[byte]byte{'d': 4, 'f': 8, 'l': 10}[nd.kind]
		copy(b[19:], name)
		n += rl
		f.entPos++
	}
	return n, nil
}

func (m *Machine) Mkdirat(dirfd int, path string, mode uint32) (e error) {
	c, par, base, nd, canon, err := m.prep("mkdir", dirfd, path, false)
	defer func() { m.leave(c, 0, e) }()
	m.strike(c, "mkdir", canon, 0)
	if err != nil {
		return err
	}
	if be := m.bad(canon, true); be != nil {
		m.badHit(c, be)
		return be
	}
	if en, ok := errFor[c.fault]; ok {
		return en
	}
	if nd != nil {
		return syscall.EEXIST
	}
	if m.cfg.Quota >= 0 && m.quota == 0 {
		c.fault = "diskfull"
		m.res.Fired = append(m.res.Fired, wire.Fault{Proc: c.pi, Op: c.n, Kind: "diskfull"})
		return syscall.ENOSPC
	}
	par.ents[base] = &inode{ino: m.ino(), kind: 'd', mode: mode & 0777 &^ 022, mtime: m.clock, ents: map[string]*inode{}}
	return nil
}

func (m *Machine) Unlinkat(dirfd int, path string, flags int) (e error) {
	c, par, base, nd, canon, err := m.prep("unlink", dirfd, path, false)
	defer func() { m.leave(c, 0, e) }()
	m.strike(c, "unlink", canon, 0)
	if err != nil {
		return err
	}
	if be := m.bad(canon, true); be != nil {
		m.badHit(c, be)
		return be
	}
	if en, ok := errFor[c.fault]; ok {
		return en
	}
	if nd == nil {
		return syscall.ENOENT
	}
	if flags&0x200 != 0 {
		if nd.kind != 'd' {
			return syscall.ENOTDIR
		}
		if len(nd.ents) > 0 {
			return syscall.ENOTEMPTY
		}
	} else if nd.kind == 'd' {
		return syscall.EISDIR
	}
	delete(par.ents, base)
	return nil
}

func (m *Machine) Renameat(odir int, opath string, ndir int, npath string) (e error) {
	c, par, base, nd, canon, err := m.prep("rename", odir, opath, false)
	defer func() { m.leave(c, 0, e) }()
	m.strike(c, "rename", canon, 0)
	if err != nil {
		return err
	}
	if nd == nil {
		return syscall.ENOENT
	}
	ap, err := m.abs(c.p, ndir, npath)
	if err != nil {
		return err
	}
	npar, nbase, nnd, ncanon, err := m.walk(ap, false, 0)
	if err != nil {
		return err
	}
	if be := m.bad(ncanon, true); be != nil {
		m.badHit(c, be)
		return be
	}
	if en, ok := errFor[c.fault]; ok {
		return en
	}
	c.path = ncanon
	if nnd != nil && nnd.kind == 'd' {
		if nd.kind != 'd' {
			return syscall.EISDIR
		}
		if len(nnd.ents) > 0 {
			return syscall.ENOTEMPTY
		}
	}
	delete(par.ents, base)
	npar.ents[nbase] = nd
	return nil
}

func (m *Machine) Linkat(odir int, opath string, ndir int, npath string) (e error) {
	c, _, _, nd, canon, err := m.prep("link", odir, opath, false)
	defer func() { m.leave(c, 0, e) }()
	m.strike(c, "link", canon, 0)
	if err != nil {
		return err
	}
	if nd == nil {
		return syscall.ENOENT
	}
	ap, err := m.abs(c.p, ndir, npath)
	if err != nil {
		return err
	}
	npar, nbase, nnd, ncanon, err := m.walk(ap, false, 0)
	if err != nil {
		return err
	}
	if nnd != nil {
		return syscall.EEXIST
	}
	c.path = ncanon
	npar.ents[nbase] = nd
	return nil
}

func (m *Machine) Symlinkat(target string, ndir int, npath string) (e error) {
	c, par, base, nd, canon, err := m.prep("symlink", ndir, npath, false)
	defer func() { m.leave(c, 0, e) }()
	m.strike(c, "symlink", canon, 0)
	if err != nil {
		return err
	}
	if be := m.bad(canon, true); be != nil {
		m.badHit(c, be)
		return be
	}
	if en, ok := errFor[c.fault]; ok {
		return en
	}
	if nd != nil {
		return syscall.EEXIST
	}
	par.ents[base] = &inode{ino: m.ino(), kind: 'l', mode: 0777, mtime: m.clock, target: target}
	return nil
}

func (m *Machine) Readlinkat(dirfd int, path string, buf []byte) (n int, e error) {
	c, _, _, nd, canon, err := m.prep("readlink", dirfd, path, false)
	defer func() { m.leave(c, int64(n), e) }()
	m.strike(c, "readlink", canon, 0)
	if err != nil {
		return -1, err
	}
	if en, ok := errFor[c.fault]; ok {
		return -1, en
	}
	if nd == nil {
		return -1, syscall.ENOENT
	}
	if nd.kind != 'l' {
		return -1, syscall.EINVAL
	}
	return copy(buf, nd.target), nil
}

func (m *Machine) Faccessat(dirfd int, path string, mode uint32) (e error) {
	c, _, _, nd, canon, err := m.prep("access", dirfd, path, true)
	defer func() { m.leave(c, 0, e) }()
	m.strike(c, "stat", canon, 0)
	if err != nil {
		return err
	}
	if be := m.bad(canon, mode != 0); be != nil {
		m.badHit(c, be)
		return be
	}
	if nd == nil {
		return syscall.ENOENT
	}
	return nil
}

func (m *Machine) Fchmod(fd int, mode uint32) (e error) {
	c, f := m.fdop("chmod", fd)
	defer func() { m.leave(c, 0, e) }()
	if f == nil {
		return syscall.EBADF
	}
	m.strike(c, "chmod", f.path, 0)
	if en, ok := errFor[c.fault]; ok {
		return en
	}
	f.node.mode = mode & 07777
	return nil
}

func (m *Machine) Fchmodat(dirfd int, path string, mode uint32) (e error) {
	c, _, _, nd, canon, err := m.prep("chmod", dirfd, path, true)
	defer func() { m.leave(c, 0, e) }()
	m.strike(c, "chmod", canon, 0)
	if err != nil {
		return err
	}
	if en, ok := errFor[c.fault]; ok {
		return en
	}
	if nd == nil {
		return syscall.ENOENT
	}
	nd.mode = mode & 07777
	return nil
}

func (m *Machine) Utimensat(dirfd int, path string, ts *[2]syscall.Timespec) (e error) {
	c, _, _, nd, _, err := m.prep("utimes", dirfd, path, true)
	defer func() { m.leave(c, 0, e) }()
	if err != nil {
		return err
	}
	if nd == nil {
		return syscall.ENOENT
	}
	nd.mtime = ts[1].Sec*1e9 + ts[1].Nsec
	return nil
}

func (m *Machine) Fsync(fd int) (e error) {
	c, f := m.fdop("fsync", fd)
	defer func() { m.leave(c, 0, e) }()
	if f == nil {
		return syscall.EBADF
	}
	m.strike(c, "fsync", f.path, 0)
	if en, ok := errFor[c.fault]; ok {
		return en
	}
	f.node.synced = append([]byte{}, f.node.data...)
	f.node.isSync = true
	return nil
}

func (m *Machine) trunc(nd *inode, n int64) {
	d := append([]byte{}, nd.data...)
	for int64(len(d)) < n {
		d = append(d, 0)
	}
	nd.data = d[:n]
	nd.owned = true
	nd.mtime = m.clock
}

func (m *Machine) Ftruncate(fd int, n int64) (e error) {
	c, f := m.fdop("truncate", fd)
	defer func() { m.leave(c, 0, e) }()
	if f == nil {
		return syscall.EBADF
	}
	m.strike(c, "truncate", f.path, 0)
	m.trunc(f.node, n)
	return nil
}

func (m *Machine) Truncate(path string, n int64) (e error) {
	c, _, _, nd, canon, err := m.prep("truncate", atFdcwd, path, true)
	defer func() { m.leave(c, 0, e) }()
	m.strike(c, "truncate", canon, 0)
	if err != nil {
		return err
	}
	if nd == nil {
		return syscall.ENOENT
	}
	m.trunc(nd, n)
	return nil
}

func (m *Machine) Seek(fd int, off int64, whence int) (r int64, e error) {
	c, f := m.fdop("seek", fd)
	defer func() { m.leave(c, r, e) }()
	if f == nil {
		if fd == 1 || fd == 2 {
			return -1, syscall.ESPIPE
		}
		return -1, syscall.EBADF
	}
	switch whence {
	case 0:
		f.off = off
	case 1:
		f.off += off
	case 2:
		f.off = int64(len(f.node.data)) + off
	}
	if f.node.kind == 'd' {
		f.listed, f.ents, f.entPos = false, nil, 0
	}
	return f.off, nil
}

func (m *Machine) Getcwd(buf []byte) (n int, e error) {
	m.mu.Lock()
	c := m.enter("getcwd", "")
	defer func() { m.leave(c, int64(n), e) }()
	if len(buf) < len(c.p.cwd)+1 {
		return 0, syscall.ERANGE
	}
	n = copy(buf, c.p.cwd)
	buf[n] = 0
	n++
	return n, nil
}

func (m *Machine) Chdir(path string) (e error) {
	c, _, _, nd, canon, err := m.prep("chdir", atFdcwd, path, true)
	defer func() { m.leave(c, 0, e) }()
	if err != nil {
		return err
	}
	if nd == nil {
		return syscall.ENOENT
	}
	if nd.kind != 'd' {
		return syscall.ENOTDIR
	}
	c.p.cwd = canon
	return nil
}

func (m *Machine) Simple(name string, fd int) (e error) {
	c, f := m.fdop(name, fd)
	defer func() { m.leave(c, 0, e) }()
	if f == nil && fd > 2 {
		return syscall.EBADF
	}
	return nil
}
