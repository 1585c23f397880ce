TOUCH(EVP_EncryptInit_ex)
TOUCH(EVP_DecryptInit_ex)
TOUCH(EVP_CipherInit_ex)
DATA(EVP_EncryptUpdate)
DATA(EVP_DecryptUpdate)
TOUCH(EVP_CipherUpdate)
DATA(EVP_EncryptFinal)
DATA(EVP_EncryptFinal_ex)
DATA(EVP_DecryptFinal)
DATA(EVP_DecryptFinal_ex)
TOUCH(EVP_CipherFinal_ex)
TOUCH(EVP_CIPHER_CTX_set_padding)
TOUCH(EVP_CIPHER_CTX_ctrl)
TOUCH(EVP_CIPHER_CTX_free)
TOUCH(EVP_CIPHER_CTX_reset)
TOUCH(EVP_MAC_init)
TOUCH(EVP_MAC_update)
TOUCH(EVP_MAC_final)
TOUCH(EVP_MAC_CTX_free)
TOUCH(CMAC_Init)
TOUCH(CMAC_Update)
TOUCH(CMAC_Final)
TOUCH(CMAC_CTX_free)
TOUCH(EVP_DigestInit_ex)
DATA(EVP_DigestUpdate)
TOUCH(EVP_DigestFinal_ex)
TOUCH(EVP_MD_CTX_free)
TOUCH(EVP_DigestSignFinal)
TOUCH(EVP_DigestSign)
TOUCH(EVP_PKEY_sign)
TOUCH(EVP_PKEY_decrypt)
TOUCH(EVP_PKEY_derive)
TOUCH(EVP_PKEY_CTX_free)
TOUCH(HMAC_Update)
TOUCH(HMAC_Final)
TOUCH(HMAC_CTX_free)
TOUCH(HMAC_Init_ex)
