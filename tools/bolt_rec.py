"""Makes the build use a copy of the bbolt dependency that reports every write, truncation and sync of
the database file to a function variable. The database is otherwise the original one."""
import os, shutil, subprocess

HOOK = '''package bbolt

// VerifEvent, if set, is told about every change of a database file before it happens; a returned
// error makes the change fail without taking place.
var VerifEvent func(path, kind string, off int64, data []byte) error

func (db *DB) verifWriteAt(b []byte, off int64) (int, error) {
	if VerifEvent != nil {
		if err := VerifEvent(db.path, "write", off, b); err != nil {
			return 0, err
		}
	}
	return db.file.WriteAt(b, off)
}

func (db *DB) verifTruncate(n int64) error {
	if VerifEvent != nil {
		if err := VerifEvent(db.path, "truncate", n, nil); err != nil {
			return err
		}
	}
	return db.file.Truncate(n)
}

func (db *DB) verifSync() error {
	if VerifEvent != nil {
		if err := VerifEvent(db.path, "sync", 0, nil); err != nil {
			return err
		}
	}
	return db.file.Sync()
}
'''

def make(scratch, env):
    d = subprocess.run(["go", "list", "-modfile", os.path.join(scratch, "go.mod"), "-m", "-f", "{{.Dir}}", "go.etcd.io/bbolt"], cwd=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"),
                       env=env, capture_output=True, text=True, timeout=120)
    src = d.stdout.strip()
    if d.returncode != 0 or not os.path.isdir(src):
        raise RuntimeError("bbolt not found: " + d.stderr)
    out = os.path.join(scratch, "bbolt")
    os.makedirs(out)
    for f in os.listdir(src):
        if f.endswith(".go") and not f.endswith("_test.go") or f in ("go.mod", "go.sum"):
            shutil.copyfile(os.path.join(src, f), os.path.join(out, f))
    def edit(name, *subs):
        p = os.path.join(out, name)
        s = open(p).read()
        for old, new in subs:
            if old not in s:
                raise RuntimeError(f"bbolt {name}: {old} not found")
            s = s.replace(old, new)
        open(p, "w").write(s)
    edit("db.go", ("db.ops.writeAt = db.file.WriteAt", "db.ops.writeAt = db.verifWriteAt"), ("db.file.Truncate(", "db.verifTruncate("), ("db.file.Sync()", "db.verifSync()"))
    edit("bolt_linux.go", ("return syscall.Fdatasync(int(db.file.Fd()))", '''if VerifEvent != nil {
		if err := VerifEvent(db.path, "sync", 0, nil); err != nil {
			return err
		}
	}
	return syscall.Fdatasync(int(db.file.Fd()))'''))
    open(os.path.join(out, "verif_hook.go"), "w").write(HOOK)
    open(os.path.join(scratch, "go.mod"), "a").write(f"\nreplace go.etcd.io/bbolt => {out}\n")
