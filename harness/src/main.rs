fn main() {
    bch_harness::drive(bch_harness::run_case)
}
