fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c11::TABLE);
}
