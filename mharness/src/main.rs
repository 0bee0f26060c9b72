fn main() {
    mcore::main(&[mg0::run, mg1::run, mg2::run, mg3::run, mg4::run, mg5::run, mg6::run]);
}
