// P19: the command line program among directories.  Case files are written, replaced and removed, the program
// is run; what it takes its case from, how it ends and what it leaves behind.
module m_program {
  import num.* from "./num"
  // directories: where the program is started, a directory given to it, a decoy, one inside the given one
  pure val DIRS: Set[str] = Set("work", "given", "decoy", "given/inner")
  pure val CASES: int = 3
  // how a directory is named on the command line
  pure val FORMS: Set[str] = Set("absolute", "relative", "slash")
  // where the case asks its results to be put, relative to the directory of start or absolute, new or there already;
  // "beside": in the directory of the case file
  pure val OUTS: Set[str] = Set("new", "new/deep", "absolute", "there", "beside", "with blank")
  pure val NAMES: Set[str] = Set("results", "my case", "a.b")
  // a case file: which case it describes (0: there is none) and its output settings
  type File = { num: int, out: str, name: str }
  pure val NOTHING: File = { num: 0, out: "", name: "" }
  // the last run: asked for a directory, ended well, took which file
  type Run = { dir: str, form: str, asked: bool, done: bool, took: File }
  type Store = (str, str)

  var files: str -> File
  var last: Run
  var stored: Store -> File     // result directories, with the case whose results they hold (per directory of start or of case file)
  var act: str

  pure val NO_RUN: Run = { dir: "", form: "", asked: false, done: false, took: NOTHING }
  // two stores are the same directory only if they are asked for in the same way; beside depends on where the case file is
  pure def place(dir: str, f: File): Store = if (f.out == "beside") (dir, f.out) else ("work", f.out)

  action init = {
    nondet n = 1.to(CASES).oneOf()
    nondet o = OUTS.oneOf()
    nondet m = NAMES.oneOf()
    nondet d = DIRS.oneOf()
    all { files' = DIRS.mapBy(x => if (x == d) { num: n, out: o, name: m } else NOTHING), last' = NO_RUN, stored' = Map(), act' = "start" }
  }
  action write = {
    nondet d = DIRS.oneOf()
    nondet n = 1.to(CASES).oneOf()
    nondet o = OUTS.oneOf()
    nondet m = NAMES.oneOf()
    all { files' = files.set(d, { num: n, out: o, name: m }), last' = last, stored' = stored, act' = "write" }
  }
  action remove = {
    nondet d = DIRS.oneOf()
    all { files.get(d).num > 0, act != "start", files' = files.set(d, NOTHING), last' = last, stored' = stored, act' = "remove" }
  }
  action launch = {
    nondet d = DIRS.oneOf()
    nondet form = FORMS.oneOf()
    nondet asked = Set(true, true, false).oneOf()
    // without a directory on the command line it is the one the program is started in
    val dir = if (asked) d else "work"
    val f = files.get(dir)
    all {
      asked or d == "work",
      files' = files, act' = "run",
      last' = { dir: dir, form: form, asked: asked, done: f.num > 0, took: f },
      stored' = if (f.num > 0) stored.put(place(dir, f), f) else stored }
  }
  action step = any { write, write, remove, launch, launch, launch }

  // a run takes the file of its directory, whatever lies elsewhere, and ends well exactly when there is one
  val inv = act == "run" implies and {
    last.done == (files.get(last.dir).num > 0), last.took == files.get(last.dir),
    last.done implies stored.get(place(last.dir, last.took)) == last.took }
}
