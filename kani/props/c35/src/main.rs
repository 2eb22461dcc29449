fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c35::TABLE);
}
