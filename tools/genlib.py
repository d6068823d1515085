
import os
D='/verif/harness/h/src/'
ms=[i for i in range(1, 18) if os.path.exists(D+'c%02d.rs'%i)]
o='//! Property harnesses over the real prima_undine code.\n#[macro_use]\npub mod vx;\npub mod util;\npub mod ops;\n#[cfg(any(feature = "c12", feature = "c13"))]\npub mod tree;\n#[cfg(any(feature = "c14", feature = "c16"))]\npub mod rng;\n'
for i in ms: o+='#[cfg(feature = "c%02d")]\npub mod c%02d;\n'%(i,i)
o+='\npub type Entry = (&\'static str, fn(u32), fn() -> u32);\npub fn tables() -> Vec<&\'static [Entry]> {\n    vec![\n'
for i in ms: o+='        #[cfg(feature = "c%02d")]\n        c%02d::TABLE,\n'%(i,i)
o+='    ]\n}\n'
open(D+'lib.rs','w').write(o)
