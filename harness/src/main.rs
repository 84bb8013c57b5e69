mod decls;
mod drive;
mod dwarf;
mod elf;
mod expect;
mod files;
mod gen;
mod guided;
mod limits;
mod link_arch;
mod link_elf;
mod link_mach;
mod mach;
mod model;
mod prog;
mod props;
mod readers;
mod run;
mod spec;
mod specs;
mod tape;

fn main() {
    run::main()
}
