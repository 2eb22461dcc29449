fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c36::TABLE);
}
