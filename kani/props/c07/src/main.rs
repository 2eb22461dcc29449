fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c07::TABLE);
}
