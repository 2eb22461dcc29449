fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c34::TABLE);
}
