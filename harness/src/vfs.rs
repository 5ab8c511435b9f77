//! In-memory file system of the simulated machine, with a model of what survives a power cut.
use std::collections::BTreeMap;

pub const ROOT: usize = 0;
pub const NOBODY: usize = usize::MAX;

#[derive(Clone)]
pub struct Inode {
    pub dir: bool,
    /// a symbolic link; its target is the data
    pub link: bool,
    pub data: Vec<u8>,
    pub ents: BTreeMap<String, usize>,
    pub parent: usize,
    pub nlink: u32,
    pub creator: usize,
    pub mode: u32,
    /// content known to be on the platter
    pub synced: Vec<u8>,
    /// contents the file went through since then (only kept while `track` is on)
    pub since: Vec<Vec<u8>>,
    pub flock: Option<(usize, bool)>,
    pub mtime: u64,
}

/// One change of the file system, for the containment and read-only checks.
#[derive(Clone, Debug, PartialEq)]
pub struct Mutation {
    pub actor: usize,
    pub path: String,
    pub what: &'static str,
    pub step: u64,
}

type Names = BTreeMap<usize, BTreeMap<String, usize>>;

pub struct Vfs {
    pub inodes: Vec<Inode>,
    pub log: Vec<Mutation>,
    /// bytes that can still be written, None = unlimited
    pub free: Option<u64>,
    pub track: bool,
    /// wall clock, in nanoseconds
    pub now: u64,
    /// name spaces since the last sync point; the first one is durable
    names: Vec<Names>,
}

pub enum Res {
    Found(usize, usize, String), // parent, inode, name
    Missing(usize, String),      // parent, name
    Err(i32),
}

impl Vfs {
    pub fn new() -> Vfs {
        let mut v = Vfs { inodes: vec![], log: vec![], free: None, track: false, now: 1_600_000_000_000_000_000, names: vec![] };
        v.new_inode(true, NOBODY, ROOT);
        v.inodes[ROOT].nlink = 2;
        v
    }

    pub fn new_inode(&mut self, dir: bool, creator: usize, parent: usize) -> usize {
        self.inodes.push(Inode {
            dir,
            link: false,
            data: vec![],
            ents: BTreeMap::new(),
            parent,
            nlink: 1,
            creator,
            mode: if dir { 0o755 } else { 0o644 },
            synced: vec![],
            since: vec![],
            flock: None,
            mtime: self.now,
        });
        self.inodes.len() - 1
    }

    /// Resolves an absolute or relative path from the directory `from`.
    pub fn resolve(&self, from: usize, path: &str) -> Res {
        self.walk(from, path, true, 40)
    }

    /// The same, but a symbolic link at the very end is not followed.
    pub fn resolve_nofollow(&self, from: usize, path: &str) -> Res {
        self.walk(from, path, false, 40)
    }

    fn walk(&self, from: usize, path: &str, follow: bool, depth: u32) -> Res {
        if path.is_empty() {
            return Res::Err(libc::ENOENT);
        }
        let mut cur = if path.starts_with('/') { ROOT } else { from };
        let parts: Vec<&str> = path.split('/').filter(|p| !p.is_empty() && *p != ".").collect();
        if parts.is_empty() {
            return if self.inodes[cur].nlink == 0 {
                Res::Err(libc::ENOENT)
            } else {
                Res::Found(self.inodes[cur].parent, cur, ".".to_string())
            };
        }
        let trailing = path.ends_with('/') || path.ends_with("/.");
        for (i, p) in parts.iter().enumerate() {
            if !self.inodes[cur].dir {
                return Res::Err(libc::ENOTDIR);
            }
            let last = i + 1 == parts.len();
            if p.len() > 255 {
                return Res::Err(libc::ENAMETOOLONG);
            }
            if *p == ".." {
                cur = self.inodes[cur].parent;
                if last {
                    return Res::Found(self.inodes[cur].parent, cur, "..".to_string());
                }
                continue;
            }
            match self.inodes[cur].ents.get(*p) {
                Some(&ino) => {
                    if self.inodes[ino].link && (!last || follow || trailing) {
                        if depth == 0 {
                            return Res::Err(libc::ELOOP);
                        }
                        let mut to = String::from_utf8_lossy(&self.inodes[ino].data).into_owned();
                        for rest in &parts[i + 1..] {
                            to.push('/');
                            to.push_str(rest);
                        }
                        if trailing {
                            to.push('/');
                        }
                        return self.walk(cur, &to, follow, depth - 1);
                    }
                    if last {
                        if trailing && !self.inodes[ino].dir {
                            return Res::Err(libc::ENOTDIR);
                        }
                        return Res::Found(cur, ino, p.to_string());
                    }
                    cur = ino;
                }
                None => {
                    return if last && self.inodes[cur].nlink > 0 {
                        Res::Missing(cur, p.to_string())
                    } else {
                        Res::Err(libc::ENOENT)
                    };
                }
            }
        }
        Res::Err(libc::ENOENT)
    }

    pub fn lookup(&self, path: &str) -> Option<usize> {
        match self.resolve(ROOT, path) {
            Res::Found(_, i, _) => Some(i),
            _ => None,
        }
    }

    pub fn path_of_dir(&self, ino: usize) -> String {
        if ino == ROOT {
            return "/".to_string();
        }
        let p = self.inodes[ino].parent;
        let name = self.inodes[p]
            .ents
            .iter()
            .find(|(_, i)| **i == ino)
            .map(|(n, _)| n.clone())
            .unwrap_or_else(|| "(deleted)".to_string());
        let base = self.path_of_dir(p);
        if base == "/" {
            format!("/{}", name)
        } else {
            format!("{}/{}", base, name)
        }
    }

    pub fn path_in(&self, dir: usize, name: &str) -> String {
        let base = self.path_of_dir(dir);
        if base == "/" {
            format!("/{}", name)
        } else {
            format!("{}/{}", base, name)
        }
    }

    pub fn note(&mut self, actor: usize, path: String, what: &'static str) {
        let step = crate::sim::sim().step;
        self.log.push(Mutation { actor, path, what, step });
    }

    // ---- durability

    fn snapshot(&self) -> Names {
        self.inodes
            .iter()
            .enumerate()
            .filter(|(_, n)| n.dir)
            .map(|(i, n)| (i, n.ents.clone()))
            .collect()
    }

    pub fn sync_all(&mut self) {
        for n in self.inodes.iter_mut() {
            n.since.clear();
            if self.track {
                n.synced = n.data.clone();
            }
        }
        if self.track {
            self.names = vec![self.snapshot()];
        }
    }

    pub fn meta_changed(&mut self) {
        if self.track {
            let s = self.snapshot();
            self.names.push(s);
        }
    }

    pub fn data_changed(&mut self, ino: usize) {
        self.inodes[ino].mtime = self.now;
        if self.track {
            let d = self.inodes[ino].data.clone();
            self.inodes[ino].since.push(d);
        }
    }

    pub fn fsync(&mut self, ino: usize) {
        if self.track {
            let n = &mut self.inodes[ino];
            n.synced = n.data.clone();
            n.since.clear();
            let s = self.snapshot();
            self.names = vec![s];
        }
    }

    /// The machine loses power. `choose(n)` picks one of n possibilities.
    pub fn power_loss(&mut self, choose: &mut dyn FnMut(u64) -> u64) {
        if !self.track {
            return;
        }
        let k = choose(self.names.len() as u64) as usize;
        let names = self.names[k].clone();
        for (i, n) in self.inodes.iter_mut().enumerate() {
            if n.dir {
                n.ents = names.get(&i).cloned().unwrap_or_default();
            } else {
                let opts = n.since.len() as u64 + 1;
                let c = if opts > 1 { choose(opts) as usize } else { 0 };
                let base = if c == 0 { n.synced.clone() } else { n.since[c - 1].clone() };
                // the next write may have reached the disk in part
                let mut content = base;
                if c < n.since.len() {
                    let next = &n.since[c];
                    if next.len() > content.len() && next.starts_with(&content) {
                        let extra = choose((next.len() - content.len()) as u64 + 1) as usize;
                        let from = content.len();
                        content.extend_from_slice(&next[from..from + extra]);
                    }
                }
                n.data = content;
            }
            n.flock = None;
        }
        // recompute link counts and parents
        let mut links = vec![0u32; self.inodes.len()];
        links[ROOT] = 2;
        let mut stack = vec![ROOT];
        let mut par = vec![];
        while let Some(d) = stack.pop() {
            let ents: Vec<usize> = self.inodes[d].ents.values().cloned().collect();
            for e in ents {
                links[e] += 1;
                par.push((e, d));
                if self.inodes[e].dir {
                    stack.push(e);
                }
            }
        }
        for (i, n) in self.inodes.iter_mut().enumerate() {
            n.nlink = links[i];
        }
        for (e, d) in par {
            self.inodes[e].parent = d;
        }
        self.sync_all();
    }

    // ---- direct access for the controller

    pub fn mkdirs(&mut self, path: &str) -> usize {
        let mut cur = ROOT;
        for p in path.split('/').filter(|p| !p.is_empty()) {
            cur = match self.inodes[cur].ents.get(p) {
                Some(&i) if self.inodes[i].link => match self.resolve(cur, p) {
                    Res::Found(_, i, _) => i,
                    _ => panic!("{} in a plan leads nowhere", path),
                },
                Some(&i) => i,
                None => {
                    let n = self.new_inode(true, NOBODY, cur);
                    self.inodes[cur].ents.insert(p.to_string(), n);
                    n
                }
            };
        }
        cur
    }

    pub fn put(&mut self, path: &str, data: &[u8]) {
        let (d, n) = path.rsplit_once('/').unwrap();
        let d = self.mkdirs(d);
        let i = match self.inodes[d].ents.get(n) {
            Some(&i) => i,
            None => {
                let i = self.new_inode(false, NOBODY, d);
                self.inodes[d].ents.insert(n.to_string(), i);
                i
            }
        };
        self.inodes[i].data = data.to_vec();
        self.inodes[i].mtime = self.now;
    }

    pub fn put_link(&mut self, path: &str, to: &str) {
        self.put(path, to.as_bytes());
        if let Res::Found(_, i, _) = self.resolve_nofollow(ROOT, path) {
            self.inodes[i].link = true;
            self.inodes[i].mode = 0o777;
        }
    }

    pub fn remove(&mut self, path: &str) -> bool {
        match self.resolve_nofollow(ROOT, path) {
            Res::Found(d, i, n) if !self.inodes[i].dir => {
                self.inodes[d].ents.remove(&n);
                self.inodes[i].nlink -= 1;
                self.meta_changed();
                true
            }
            _ => false,
        }
    }

    pub fn get(&self, path: &str) -> Option<&[u8]> {
        self.lookup(path).filter(|i| !self.inodes[*i].dir).map(|i| &self.inodes[i].data[..])
    }

    /// every file (with content) and directory (with a trailing slash)
    pub fn tree(&self) -> BTreeMap<String, Vec<u8>> {
        let mut out = BTreeMap::new();
        let mut stack = vec![(String::new(), ROOT)];
        while let Some((base, d)) = stack.pop() {
            for (n, &i) in &self.inodes[d].ents {
                let p = format!("{}/{}", base, n);
                if self.inodes[i].dir {
                    out.insert(format!("{}/", p), vec![]);
                    stack.push((p, i));
                } else if self.inodes[i].link {
                    out.insert(format!("{}@", p), self.inodes[i].data.clone());
                } else {
                    out.insert(p, self.inodes[i].data.clone());
                }
            }
        }
        out
    }

    pub fn used_hash(&self, h: &mut crate::rng::Hash64) {
        for (p, d) in self.tree() {
            h.bytes(p.as_bytes());
            h.bytes(&d);
        }
    }
}
