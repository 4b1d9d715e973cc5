// ---- ghost state: what the program has done to the outside ----
/// one cargo command: its phase, limit and packages, the text of the files in the build directory when it ran, how it ended
pub ghost struct Ev { pub phase: Phase, pub timeout: Option<Duration>, pub packages: PackageSelection, pub files: Map<Seq<char>, Seq<char>>, pub dir: Seq<char>, pub status: Exit }
pub tracked struct World {
    pub ghost files: Map<Seq<char>, Seq<char>>,
    pub ghost runs: Seq<Ev>,
    pub ghost recorded: Seq<ScenarioOutcome>,
    /// outcomes given to the console to be reported
    pub ghost reported: Seq<ScenarioOutcome>,
    pub ghost diffs: Seq<Seq<char>>,
    pub ghost taken: Seq<Mutant>,
    pub ghost exhausted: bool,
    pub ghost write_failed: bool,
}
/// everything but the files and the write_failed flag is unchanged
pub open spec fn same_log(a: World, b: World) -> bool { a.runs == b.runs && a.recorded == b.recorded && a.reported == b.reported && a.diffs == b.diffs && a.taken == b.taken && a.exhausted == b.exhausted }
pub open spec fn same_fs(a: World, b: World) -> bool { a.files == b.files && a.write_failed == b.write_failed }
pub uninterp spec fn join(a: Seq<char>, b: Seq<char>) -> Seq<char>;
