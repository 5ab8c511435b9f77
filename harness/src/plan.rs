//! What one simulated run is made of. A run is a pure function of a Plan and its Decisions.
use crate::model::Op;
use serde::{Deserialize, Serialize};

pub type Uid = u32;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum StdinEv {
    Data(String),
    Raw(Vec<u8>),
    Eintr,
    Eio,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Cmd {
    pub uid: Uid,
    pub op: Op,
    /// directory of the graph the command is pointed at (absolute)
    pub dir: String,
    /// how the command line is written (option order, long or short, how the path is given)
    pub style: u8,
    /// seeds the process's random numbers: hash iteration order and rand::thread_rng
    pub hseed: u64,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub stdin: Vec<StdinEv>,
    /// standard output fails with this errno after so many bytes
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub out_fail: Option<(u32, i32)>,
    /// further arguments that make the command line malformed
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub bad: Vec<String>,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum FaultKind {
    /// the process is killed before the call; a write may have been carried out in part
    Kill,
    /// EIO from the call
    Eio,
    /// ENOSPC from a write or a call that creates a name; a write may be carried out in part
    Enospc,
    /// EMFILE from an open
    Emfile,
    /// EACCES from a call that takes a path
    Eacces,
    /// EINTR from read, write, open or fsync (benign: must be retried)
    Eintr,
    /// read or write transfers only a part (benign)
    Short,
    /// the process is stopped for a long time before the call goes on (benign)
    Stall,
    /// the machine's clock is set, forwards or backwards (benign)
    Clock,
    /// the machine loses power: every process dies, unsynced state may be lost
    Power,
}

impl FaultKind {
    pub fn benign(self) -> bool {
        matches!(self, FaultKind::Eintr | FaultKind::Short | FaultKind::Stall | FaultKind::Clock)
    }
    pub fn name(self) -> &'static str {
        match self {
            FaultKind::Kill => "kill",
            FaultKind::Eio => "eio",
            FaultKind::Enospc => "enospc",
            FaultKind::Emfile => "emfile",
            FaultKind::Eacces => "eacces",
            FaultKind::Eintr => "eintr",
            FaultKind::Short => "short",
            FaultKind::Stall => "stall",
            FaultKind::Clock => "clock_jump",
            FaultKind::Power => "power_loss",
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct FaultCfg {
    /// fault kinds that may be injected in this phase
    pub kinds: Vec<FaultKind>,
    /// chance per call, in 1/1000
    pub permille: u32,
    pub max: u32,
    /// only this command is hit (None: every command of the phase)
    #[serde(default)]
    pub only: Option<Uid>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Pre {
    /// an operator removes the lock file of the graph in this directory
    Unlock(String),
    /// somebody else holds the lock
    Lock(String),
    DiskFree(Option<u64>),
    /// content replaced behind the back of the commands
    Put(String, FileData),
    Remove(String),
    /// so many seconds pass
    Pass(u64),
    /// power is lost now, with no command running
    PowerLoss,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum FileData {
    Text(String),
    Bytes(Vec<u8>),
    /// a symbolic link
    Link(String),
}
impl FileData {
    pub fn bytes(&self) -> &[u8] {
        match self {
            FileData::Text(s) | FileData::Link(s) => s.as_bytes(),
            FileData::Bytes(b) => b,
        }
    }
    pub fn of(b: Vec<u8>) -> FileData {
        match String::from_utf8(b) {
            Ok(s) => FileData::Text(s),
            Err(e) => FileData::Bytes(e.into_bytes()),
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Phase {
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub pre: Vec<Pre>,
    pub clients: Vec<Vec<Cmd>>,
    #[serde(default)]
    pub faults: FaultCfg,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Sched {
    /// at every system call switch to another process with this chance (1/1000)
    Random(u32),
    /// priorities with this many priority changes at random points
    Pct(u32),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub prop: String,
    pub scenario: String,
    pub seed: u64,
    pub files: Vec<(String, FileData)>,
    #[serde(default)]
    pub dirs: Vec<String>,
    pub phases: Vec<Phase>,
    pub sched: Sched,
    /// allocation budget of one process, the step bound that makes an endless search finite
    pub budget: u64,
    #[serde(default)]
    pub power: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Decisions {
    /// (process, its n-th scheduling point, process that runs next)
    pub switches: Vec<(Uid, u32, Uid)>,
    /// (process, its n-th call, fault, argument)
    pub faults: Vec<(Uid, u32, FaultKind, u32)>,
    /// what survived each power cut
    pub power: Vec<u64>,
}

impl Plan {
    pub fn cmds(&self) -> impl Iterator<Item = &Cmd> {
        self.phases.iter().flat_map(|p| p.clients.iter().flat_map(|c| c.iter()))
    }
}
