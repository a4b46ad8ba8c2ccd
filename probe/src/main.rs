//! prints what a feature selection gives
fn main() {
    use ntrust_native::*;
    println!("{} {} {} {} {}", CRYPTO_ALGNAME, CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_CIPHERTEXTBYTES, CRYPTO_BYTES);
}
