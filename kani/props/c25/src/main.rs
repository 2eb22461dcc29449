fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c25::TABLE);
}
