fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c24::TABLE);
}
