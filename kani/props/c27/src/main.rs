fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c27::TABLE);
}
