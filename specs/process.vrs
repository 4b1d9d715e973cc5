use vstd::prelude::*;
verus! {
//%include shim_core.vrs
//%include shim_fmt.vrs
//%include shim_pathonly.vrs
// ---- time in nanoseconds; the clock never goes back ----
pub type Duration = u128;
pub const fn v_millis(n: u64) -> (r: u128) ensures r == n * 1_000_000 { n as u128 * 1_000_000 }
//%paths Duration::from_millis => v_millis
//%const process.rs WAIT_POLL_INTERVAL => WAIT_POLL_INTERVAL <= 1_000_000_000
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Instant { _p: u8 }
impl View for Instant { type V = int; uninterp spec fn view(&self) -> int; }
/// one process we started: its arguments, environment, directory, and whether it leads a process group of its own
pub ghost struct Spawn { pub argv: Seq<Seq<char>>, pub env: Seq<(Seq<char>, Seq<char>)>, pub dir: Seq<char>, pub own_group: bool, pub id: int }
pub tracked struct World {
    pub ghost clock: int,
    pub ghost interrupted: bool,
    pub ghost spawned: Seq<Spawn>,
    /// processes that have ended, and how
    pub ghost ended: Map<int, ExitStatus>,
    /// process groups sent SIGTERM, processes waited for
    pub ghost signalled: Seq<int>,
    pub ghost waited: Seq<int>,
}
/// time passes: the clock moves on, processes may end, an interrupt may arrive
pub open spec fn later(a: World, b: World) -> bool {
    &&& a.clock <= b.clock && (a.interrupted ==> b.interrupted)
    &&& forall|p: int| #[trigger] a.ended.contains_key(p) ==> b.ended.contains_key(p) && b.ended[p] == a.ended[p] }
pub open spec fn quiet(a: World, b: World) -> bool { later(a, b) && a.spawned == b.spawned && a.signalled == b.signalled && a.waited == b.waited }
impl Instant {
    #[verifier::external_body]
    pub fn now(Tracked(w): Tracked<&mut World>) -> (r: Instant) ensures quiet(*old(w), *final(w)), r@ == final(w).clock { unimplemented!() }
    #[verifier::external_body]
    pub fn elapsed(&self, Tracked(w): Tracked<&mut World>) -> (r: Duration) ensures quiet(*old(w), *final(w)), r == final(w).clock - self@ { unimplemented!() }
}
/// the loop looks at the child at least once a second
#[verifier::external_body]
pub fn sleep(d: Duration, Tracked(w): Tracked<&mut World>) requires d <= 1_000_000_000, ensures quiet(*old(w), *final(w)) { unimplemented!() }
// the flag the ctrl-c handler sets (assumed: ctrlc)
#[verifier::external_body]
pub fn v_load(Tracked(w): Tracked<&mut World>) -> (r: bool) ensures quiet(*old(w), *final(w)), r == final(w).interrupted { unimplemented!() }
//%fn interrupt.rs check_interrupted
//%wparam Tracked(w): Tracked<&mut World>
//%ghost v_load
//%opaque 1 `INTERRUPTED.load(Ordering::SeqCst)` => `v_load()`
//%spec
    ensures quiet(*old(w), *final(w)), r is Err <==> final(w).interrupted
//%end
// ---- processes (assumed: std::process and nix) ----
#[verifier::external_body]
pub struct Child { _p: u8 }
#[verifier::external_body]
pub struct ExitStatus { _p: u8 }
pub type IoError = Error;
pub enum Errno { ESRCH, EPERM, Other }
pub enum Signal { SIGTERM, SIGKILL, SIGINT, SIGHUP }
#[derive(Clone, Copy)]
pub struct Pid { pub v: i32 }
pub uninterp spec fn s_code(s: ExitStatus) -> Option<i32>;
pub uninterp spec fn s_signal(s: ExitStatus) -> Option<i32>;
impl ExitStatus {
    #[verifier::external_body]
    pub fn code(&self) -> (r: Option<i32>) ensures r == s_code(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn signal(&self) -> (r: Option<i32>) ensures r == s_signal(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn success(&self) -> (r: bool) ensures r == (s_code(*self) == Some(0i32)) { unimplemented!() }
    /// Into::into, through From<ExitStatus> for Exit below
    pub fn v_into(self) -> (r: Exit) ensures r == exit_of(self) { v_exit_from(self) }
}
impl Child {
    pub uninterp spec fn s_id(&self) -> int;
    #[verifier::external_body]
    pub fn id(&self) -> (r: u32) ensures r == self.s_id(), 0 < r < 0x8000_0000 { unimplemented!() }
    #[verifier::external_body]
    pub fn try_wait(&mut self, Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<Option<ExitStatus>, IoError>)
        ensures quiet(*old(w), *final(w)), final(self).s_id() == old(self).s_id(),
            r matches Ok(Some(s)) ==> final(w).ended.contains_key(old(self).s_id()) && final(w).ended[old(self).s_id()] == s,
            r matches Ok(None) ==> !final(w).ended.contains_key(old(self).s_id()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn wait(&mut self, Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<ExitStatus, IoError>)
        ensures later(*old(w), *final(w)), final(w).spawned == old(w).spawned, final(w).signalled == old(w).signalled, final(w).waited == old(w).waited.push(old(self).s_id()), final(self).s_id() == old(self).s_id(),
            r matches Ok(s) ==> final(w).ended.contains_key(old(self).s_id()) && final(w).ended[old(self).s_id()] == s,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_pid(n: u32) -> (r: Pid) requires n < 0x8000_0000, ensures r.v == n { unimplemented!() }
/// kill the process group led by p
#[verifier::external_body]
pub fn killpg(p: Pid, s: Signal, Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<(), Errno>)
    requires s is SIGTERM || s is SIGKILL,
    ensures later(*old(w), *final(w)), final(w).spawned == old(w).spawned, final(w).waited == old(w).waited, final(w).signalled == old(w).signalled.push(p.v as int), { unimplemented!() }
/// `?` on an io error
pub trait VTry<T>: Sized { spec fn tv(self) -> Option<T>; fn v_ctx(self) -> (r: Result<T>) ensures r is Ok <==> self.tv() is Some, r matches Ok(v) ==> self.tv() == Some(v); }
impl<T> VTry<T> for core::result::Result<T, IoError> { open spec fn tv(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn v_ctx(self) -> (r: Result<T>) { match self { Ok(v) => Ok(v), Err(_) => Err(v_err()) } } }
//%type process.rs Exit derive(PartialEq, Eq, Structural, Clone, Copy)
//%type process.rs Process
/// C15: the result of a command that ended by itself is its own exit code or signal
pub open spec fn exit_of(s: ExitStatus) -> Exit {
    match s_code(s) { Some(c) => if c == 0 { Exit::Success } else { Exit::Failure(c) }, None => match s_signal(s) { Some(g) => Exit::Signalled(g), None => Exit::Other } } }
//%fn process/unix.rs <Exit as From<ExitStatus>>::from
//%free
//%as v_exit_from
//%rettype Exit
//%spec
    ensures r == exit_of(status),
//%end
//%fn process/unix.rs terminate_child
//%wparam Tracked(w): Tracked<&mut World>
//%ghost killpg
//%opaque 1 `Pid::from_raw(child.id().try_into().unwrap())` => `v_pid(child.id())`
//%opaque 1 `cfg!(target_os = "macos")` => `false`
//%opaque 1 `let message = format!("failed to terminate child: error {errno}");` => ``
//%spec
    ensures later(*old(w), *final(w)), final(w).spawned == old(w).spawned, final(w).waited == old(w).waited, final(w).signalled == old(w).signalled.push(old(child).s_id()), final(child).s_id() == old(child).s_id(),
//%end
//%fn process.rs Process::terminate
//%wparam Tracked(w): Tracked<&mut World>
//%ghost terminate_child wait
//%spec
    ensures later(*old(w), *final(w)), final(w).spawned == old(w).spawned, final(w).signalled == old(w).signalled.push(old(self).child.s_id()), final(self).child.s_id() == old(self).child.s_id(), final(self).timeout == old(self).timeout, final(self).start == old(self).start,
        r is Ok ==> final(w).waited == old(w).waited.push(old(self).child.s_id()),
//%end
//%fn process.rs Process::poll
//%wparam Tracked(w): Tracked<&mut World>
//%ghost terminate elapsed check_interrupted try_wait
//%methods into=v_into
//%optmatch
//%spec
    ensures later(*old(w), *final(w)), final(w).spawned == old(w).spawned, final(self).child.s_id() == old(self).child.s_id(), final(self).timeout == old(self).timeout, final(self).start == old(self).start,
        // still running after its limit: terminated with its group, waited for, a timeout
        (old(self).timeout matches Some(t) && old(w).clock - old(self).start@ > t) ==> r is Err || r == Ok::<_, Error>(Some(Exit::Timeout)),
        r matches Ok(Some(e)) ==> if e == Exit::Timeout { stopped(*old(w), *final(w), old(self).child.s_id()) && (old(self).timeout matches Some(t) && final(w).clock - old(self).start@ > t) }
            else { finished(*old(w), *final(w), old(self).child.s_id(), e) && (old(self).timeout matches Some(t) ==> old(w).clock - old(self).start@ <= t) },
        // not finished: nothing was done to it
        r matches Ok(None) ==> quiet(*old(w), *final(w)) && !final(w).ended.contains_key(old(self).child.s_id()) && !old(w).interrupted,
        // interrupted: terminated, and an error
        old(w).interrupted ==> r is Err || r == Ok::<_, Error>(Some(Exit::Timeout)),
        r is Err ==> final(w).signalled == old(w).signalled.push(old(self).child.s_id()) || (quiet(*old(w), *final(w)) && !old(w).interrupted),
//%end
/// sent SIGTERM with its process group, then waited for
pub open spec fn stopped(a: World, b: World, id: int) -> bool { b.signalled == a.signalled.push(id) && b.waited == a.waited.push(id) }
pub open spec fn finished(a: World, b: World, id: int, e: Exit) -> bool { a.signalled == b.signalled && a.waited == b.waited && b.ended.contains_key(id) && e == exit_of(b.ended[id]) }
// ---- starting a process ----
#[verifier::external_body]
pub struct Command { _p: u8 }
#[verifier::external_body]
pub struct Stdio { _p: u8 }
#[verifier::external_body]
pub struct File { _p: u8 }
#[verifier::external_body]
pub struct JobClient { _p: u8 }
#[verifier::external_body]
pub struct Console { _p: u8 }
#[verifier::external_body]
pub struct ScenarioOutput { _p: u8 }
#[verifier::external_body]
pub struct Pairs { _p: u8 }
//%shim jobserver::Client => JobClient
pub ghost struct Cmd { pub argv: Seq<Seq<char>>, pub env: Seq<(Seq<char>, Seq<char>)>, pub dir: Seq<char>, pub own_group: bool }
impl View for Command { type V = Cmd; uninterp spec fn view(&self) -> Cmd; }
impl View for Pairs { type V = Seq<(Seq<char>, Seq<char>)>; uninterp spec fn view(&self) -> Seq<(Seq<char>, Seq<char>)>; }
pub open spec fn tx(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn ptx(v: Seq<(String, String)>) -> Seq<(Seq<char>, Seq<char>)> { Seq::new(v.len(), |i: int| (v[i].0@, v[i].1@)) }
#[verifier::external_body]
pub fn v_rest(a: &[String]) -> (r: &[String]) requires a@.len() > 0, ensures r@ == a@.drop_first() { unimplemented!() }
#[verifier::external_body]
pub fn v_pairs(env: &[(String, String)]) -> (r: Pairs) ensures r@ == ptx(env@) { unimplemented!() }
impl Stdio { #[verifier::external_body] pub fn null() -> (r: Stdio) { unimplemented!() } }
impl From<File> for Stdio { #[verifier::external_body] fn from(f: File) -> (r: Stdio) { unimplemented!() } }
impl Command {
    #[verifier::external_body]
    pub fn new(p: &String) -> (r: Command) ensures r@.argv == seq![p@], r@.env.len() == 0, !r@.own_group { unimplemented!() }
    #[verifier::external_body]
    pub fn args(&mut self, a: &[String]) ensures final(self)@ == (Cmd { argv: old(self)@.argv + tx(a@), ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn envs(&mut self, a: Pairs) ensures final(self)@ == (Cmd { env: old(self)@.env + a@, ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn stdin<T: Into<Stdio>>(&mut self, a: T) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn stdout<T: Into<Stdio>>(&mut self, a: T) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn stderr<T: Into<Stdio>>(&mut self, a: T) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn current_dir(&mut self, d: &Utf8Path) ensures final(self)@ == (Cmd { dir: d@, ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn process_group(&mut self, g: i32) ensures final(self)@ == (Cmd { own_group: g == 0, ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn(&mut self, Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<Child, IoError>)
        ensures final(self)@ == old(self)@, later(*old(w), *final(w)), final(w).signalled == old(w).signalled, final(w).waited == old(w).waited,
            r matches Ok(c) ==> final(w).spawned == old(w).spawned.push(Spawn { argv: old(self)@.argv, env: old(self)@.env, dir: old(self)@.dir, own_group: old(self)@.own_group, id: c.s_id() }),
            r is Err ==> final(w).spawned == old(w).spawned,
    { unimplemented!() }
}
impl JobClient {
    #[verifier::external_body]
    pub fn configure(&self, c: &mut Command) ensures final(c)@ == old(c)@ { unimplemented!() }
}
impl Console { #[verifier::external_body] pub fn tick(&self) { unimplemented!() } }
impl ScenarioOutput {
    #[verifier::external_body]
    pub fn message(&mut self, s: &String) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body]
    pub fn open_log_append(&self) -> (r: Result<File>) { unimplemented!() }
}
#[verifier::external_body]
pub fn quote_argv(a: &[String]) -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn v_dbg<T>(x: &T) -> (r: String) { unimplemented!() }
//%fn process/unix.rs configure_command
//%spec
    ensures final(command)@ == (Cmd { own_group: true, ..old(command)@ }),
//%end
//%fn process.rs Process::start
//%wparam Tracked(w): Tracked<&mut World>
//%ghost now spawn
//%chain command
//%opaque 1 `&argv[1..]` => `v_rest(argv)`
//%opaque 1 `env.iter().map(|(k, v)| (OsStr::new(k), OsStr::new(v)))` => `v_pairs(env)`
//%spec
    requires argv@.len() > 0,
    ensures later(*old(w), *final(w)), final(w).signalled == old(w).signalled, final(w).waited == old(w).waited,
        r matches Ok(p) ==> p.timeout == timeout && old(w).clock <= p.start@ <= final(w).clock && final(w).spawned == old(w).spawned.push(Spawn { argv: tx(argv@), env: ptx(env@), dir: cwd@, own_group: true, id: p.child.s_id() }),
        r is Err ==> final(w).spawned == old(w).spawned,
//%entry
    proof { assert(tx(argv@) =~= seq![argv@[0]@] + tx(argv@.drop_first())); assert(Seq::empty() + ptx(env@) =~= ptx(env@)); assert forall|s: Seq<(Seq<char>, Seq<char>)>| s.len() == 0 implies #[trigger] (s + ptx(env@)) == ptx(env@) by { assert(s + ptx(env@) =~= ptx(env@)); } }
//%end
//%fn process.rs Process::run
//%wparam Tracked(w): Tracked<&mut World>
//%ghost start poll sleep
//%attr #[verifier::exec_allows_no_decreases_clause]
//%spec
    requires argv@.len() > 0,
    ensures later(*old(w), *final(w)),
        r matches Ok(e) ==> {
            &&& final(w).spawned.len() == old(w).spawned.len() + 1 && final(w).spawned.drop_last() =~= old(w).spawned
            &&& started(final(w).spawned.last(), argv@, env@, cwd@)
            // a timeout only past the limit, and then the command is stopped; otherwise exactly how it ended
            &&& (if e == Exit::Timeout { stopped(*old(w), *final(w), final(w).spawned.last().id) && (timeout matches Some(t) && final(w).clock - old(w).clock > t) } else { finished(*old(w), *final(w), final(w).spawned.last().id, e) }) },
//%loop 0
    invariant_except_break w.signalled == w0.signalled, w.waited == w0.waited,
    invariant w0 == *old(w), later(w0, *w), w.spawned.len() == w0.spawned.len() + 1, w.spawned.drop_last() =~= w0.spawned, started(w.spawned.last(), argv@, env@, cwd@), w.spawned.last().id == child.child.s_id(),
        child.timeout == timeout, w0.clock <= child.start@,
    ensures later(w0, *w), w.spawned.len() == w0.spawned.len() + 1, w.spawned.drop_last() =~= w0.spawned, started(w.spawned.last(), argv@, env@, cwd@),
        if process_status == Exit::Timeout { stopped(w0, *w, w.spawned.last().id) && (timeout matches Some(t) && w.clock - w0.clock > t) } else { finished(w0, *w, w.spawned.last().id, process_status) },
//%loop 0 start
    broadcast use lem_later;
//%entry
    let ghost w0 = *w;
    broadcast use lem_later;
//%end
pub broadcast proof fn lem_later(a: World, b: World, c: World) requires #[trigger] later(a, b), #[trigger] later(b, c), ensures later(a, c) {}
pub open spec fn started(s: Spawn, argv: Seq<String>, env: Seq<(String, String)>, dir: Seq<char>) -> bool { s.argv == tx(argv) && s.env == ptx(env) && s.dir == dir && s.own_group }
} // verus!
fn main() {}
