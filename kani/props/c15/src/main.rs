fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c15::TABLE);
}
