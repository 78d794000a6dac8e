"""Prepares the copy of binrw that the Kani build links against.

The sources come from the cargo registry on every run.  Only error *diagnostics* and error
*destructors* change: an error keeps its root cause but gains no backtrace frames, and the boxes an
error owns are leaked instead of dropped.  Which inputs are accepted, which are rejected, every value
read, and every reader position stay as they are.  The native replay links the unmodified crate.
"""
import glob, os, shutil, sys
dst = sys.argv[1]
shutil.rmtree(dst, ignore_errors=True)
os.makedirs(dst)
reg = glob.glob(os.path.expanduser(os.environ.get("CARGO_HOME", "~/.cargo") + "/registry/src/*/"))
for n in ("binrw", "binrw_derive"):
    src = [r + n + "-0.14.2" for r in reg if os.path.isdir(r + n + "-0.14.2")][0]
    shutil.copytree(src, os.path.join(dst, n))
os.chdir(dst)

def sub(f,pairs):
    s=open(f).read()
    for a,b,n in pairs:
        assert s.count(a)==n,(f,a,s.count(a))
        s=s.replace(a,b)
    open(f,'w').write(s)
sub('binrw/src/error/mod.rs',[
("""        match self {
            Error::Backtrace(mut backtrace) => {
                backtrace.frames.push(frame.into());
                Error::Backtrace(backtrace)
            }
            error => Error::Backtrace(Backtrace::new(error, vec![frame.into()])),
        }
""","        core::mem::forget(frame);\n        self\n",1),
("""        match self {
            Error::Backtrace(backtrace) => Error::Backtrace(backtrace.with_message(message)),
            error => {
                let caller = core::panic::Location::caller();
                Error::Backtrace(Backtrace::new(
                    error,
                    vec![BacktraceFrame::Full {
                        code: None,
                        message: message.into(),
                        file: caller.file(),
                        line: caller.line(),
                    }],
                ))
            }
        }
""","        core::mem::forget(message);\n        self\n",1),
("variant_errors: Vec<(&'static str, Error)>","variant_errors: core::mem::ManuallyDrop<Vec<(&'static str, Error)>>",1),
("for (name, err) in variant_errors {","for (name, err) in variant_errors.iter() {",1),
("found: Box<dyn fmt::Debug + Send + Sync>","found: core::mem::ManuallyDrop<Box<dyn fmt::Debug + Send + Sync>>",1),
])
s=open('binrw/src/error/mod.rs').read()
i=s.index("        match self {\n            Err(err) => {\n                let caller"); j=s.index("            ok => ok,\n        }\n",i)+len("            ok => ok,\n        }\n")
s=s[:i]+"        core::mem::forget(message);\n        self\n"+s[j:]
open('binrw/src/error/mod.rs','w').write(s)
sub('binrw/src/error/backtrace.rs',[
("pub error: Box<Error>","pub error: core::mem::ManuallyDrop<Box<Error>>",1),
("pub frames: Vec<BacktraceFrame>","pub frames: core::mem::ManuallyDrop<Vec<BacktraceFrame>>",1),
("                error: Box::new(error),\n                frames,","                error: core::mem::ManuallyDrop::new(Box::new(error)),\n                frames: core::mem::ManuallyDrop::new(frames),",1),
])
s=open('binrw/src/private.rs').read()
i=s.index("    let reason = BacktraceFrame::Message"); j=s.index("pub fn restore_position_variant")
s=s[:i]+"    core::mem::forget(seek_error);\n    error\n}\n\n"+s[j:]
s=s.replace("error: Error, mut seek_error: Error","error: Error, seek_error: Error")
a="found: Box::new(val) as _"
assert s.count(a)==1
s=s.replace(a,"found: core::mem::ManuallyDrop::new(Box::new(val) as _)")
open('binrw/src/private.rs','w').write(s)
sub('binrw/src/endian.rs',[('found: Box::new("Invalid UTF-16 BOM")','found: core::mem::ManuallyDrop::new(Box::new("Invalid UTF-16 BOM"))',1)])
s=open('binrw/src/lib.rs').read()
open('binrw/src/lib.rs','w').write('#![allow(pub_use_of_private_extern_crate)]\n'+s)
sub('binrw_derive/src/binrw/codegen/read_options/enum.rs',[
("variant_errors: #ERROR_BASKET","variant_errors: ::core::mem::ManuallyDrop::new(#ERROR_BASKET)",1),
("#ERROR_BASKET.push((#name, #TEMP));","let _ = #name; ::core::mem::forget(#TEMP);",1),
])
