//go:build go1.22

package meshkit

// packed is guest.c, built by build.sh, compressed, in base 64.
const packed = "" +
	"eNrtG0tsHdX1/uZ95vPesx07loLUmSmVXIEjAlKKTBe5QglNI0g/ars0TuKkmThO/PwcAkX4BRYNLaWRWlVdsAgkENN2kbYs" +
	"CrRSKoGE1Cyy6IJFF2yQqCpVATZdUNJzzr0zb+7Y+aGoCq0nn7nn3N+5557vnfvYzOJhzhjjX6o9KpaX2aMc/sllLDEE+PKj" +
	"/nLxMPFVWXsMunQXW9PTB+cP9qb3LO3fP9tdZMzim9PTR45Ozx1c7BWo2vT04uz8PsZlvSakVB6Hv0c5557krFZrwCz6/Muj" +
	"Qf0Rr3Z49vCR7uOCRdPTpjPNwuR4AdvRp7uzC0uzMIuqTS/2Zro95g360HQ1/9/fqz3I+bJmE+LnJ/t9lkixTWyLue73+a6I" +
	"xSwvSC0Wtkc8YCzQp1egJfx/os86fXhYcBcT24oxtIKWDBu+QCDgf4mFzglqO+a0bdi2wS++zseXv0jD6VP8UMrvpDKRw7YT" +
	"KXIhEZpIBEDtJNyTC4lCnNwGJJ5eebrPMipA12ySsSmGpL+Y41908S/l+Jdc/Jkcf6aMV4BQWSofioBcoEEAVdeclmeJjIVe" +
	"zlKBXTSwYqs4vfJMnxaD9HPd6CYe0F8T22ComqUURtCNHoBm5FQgotPrAualvEE3qQN4NgfTBjQAxJkC0dTjvW7iA+7lAhfA" +
	"sEkIqHMFSukrfCGNtDiWtIjZSv+LL+jxHUBeTb9K7WAZdf1ElrSB0k7c0sezlmKcMx7EYoI1UwlTwXr7n8oFmKALxcYxgqA0" +
	"fqzbhU51fQz6AzciGC2I/TjsJgImeCUnJBmCwYeJgkjzhQiYlUSxTEZCmKUdy0nGkScyZwUURDcd1jJL/UMwsoz9LBmBCWWW" +
	"REBXPAQT4HB2UZdhUR2zqJVizg0oOlolIbx9nGhYN3ZGIm5vh/9GsMVoHMHMicKXAG5yLMg0nGI/5QD4U+x5fKsp9hNuKlk6" +
	"NsWeAwCF/BQKeSqn2I+xFvkyxX5kih0oPmuK41A8yeMQyIRNHMONi33kZBc43wYBgvlHUJz8sup0UHVgN9RDkV0oMEFqbx52" +
	"05s7lMqWB5skagz4p2uZUW3sTiKYwip1M0uHM32iz3fDSCJpAQuAE62ypKKUx6LzdN+qMmGTVgATn0MLkOmVC/wBhoS8QnA8" +
	"NEXQywYKDHTWQA0DnTFQ00AvGUga6EULEa8QQYYmS0PLMwZ0gyXwrSVQRpPaaAkiawmgKSgNrC4ewZKyGim0n0F7nhVwgLAY" +
	"wCHCMoejisL7yAocESS3BS/QjhOkHWgFYlGMwrGBVX8f1d836g+dhmE4y9nBRoK0qzLL5fYIbI1heagC2tlR/R4I8GkOtED5" +
	"CwsgsiCVsF+29txTWUtwVg9QbElTRlBBoJmkZrGP0hxqkShoEitQEpQXTQMCI2D+E0QE/oGVh50f2unj0PgABe2h/860Tbop" +
	"9XmSBAGLB6usm8guw+vU11M7N4E+atXT39CvLudMB2ODFSrrOoySKN/gYJBfKg53IrdgKn4M9nC13KoYdzYdKeRWkeqiBpeZ" +
	"qHCzVFVufWBERW59R259R259R259R259R279qtz6hdxqFAtgXps4La3DQgcCsmGkV+hPrrC15NdyOStLsNS/dXEB4n7n4kLE" +
	"/b6Mc6TZsMfPJZg2ESatzmeFWKEQKyvEfjxyFSGWFSGWhRDLgCSGmr+ATjJtwXZvNeXc/ubGmnzq+Q+QjFRNCHD+ikT19D9K" +
	"KKTt1D9LCBSk/oclBNrCyx+XRwGZ8jJwfz6+fJykBSvR/T9FO6ImiBDKBhrZEB0UiqMfCizJzDiHEMUHxG+rIAWAmstiDmT6" +
	"j0QrbTOuBdj1B4NRFDbov9l66AfQGwbqiwc4gu86lZcc6KIDveNAbznQBQd6naBkGIqvmWLn88NgCDBwFYa50q5FnxAPUAhG" +
	"dbLMcoDK7JYOu6V+00Dc1L3r1F1yoIsO9I4DveVAFxzIsJjEAuIHmoijManDC6xIDV5gPjx4gd1QGCRMMYkvshSCSujYKH6g" +
	"WIC8OhlisOT0Honb1iALDFKOZ8mYNfxvLGetNiQOfPAosoYSPYBMGuQIkib5hSQo6+DQQAexViWjMGJLezusgb8d9NK/NXpZ" +
	"6GTcMpDZtHRDRSvZWhr7pu2p6w+lG00DI5XpeN7hlmvx54v5G+Kha+js0NV11mzH2jobb/zv6Oy40VmBeQmPR41yNoxmNo1a" +
	"BkappVFq4+JrRRTvFUG8guD9fbY7wqj9B5jvjCBXR2CnxnB3hsuB67B+zHr/Mf0JW6DtRufPjfNvZDagglLh1ZsYnzYzN571" +
	"K/FskMOh4/EpevVM9Iojw7g0n6CcyslYKS4bRK7xEMg+A8PMgeiqNSpMBtiit1k1moRogd6l5oM/0PFJyCQlxK3SxG8Kc48k" +
	"gqgTXsqCIXQzZusshRwcjBaVTGYHxurtNz86eTwRKI4KWRxSTVs/BQzePajPkzxlcoUSltgwAhFraiPVRf2zZ/qNuTw7GIDS" +
	"BVUJJL76yHHfcDw0+QLEwcBQRXMop7miCtBA4HSYHxFMiBWTeMVyEVZKAIbhEW2Y5dyoPr9MAT/oIi9YA9RDIq4GibgqEnFF" +
	"ifhWFONiihtojsG2r9/DnZTxGPQ9yUFw0C3ZHfUCahFXGsC2mwblyF3qk32IeD+98tSuiDmxYjVMB02URZjepzBdOmG6dMJ0" +
	"6YTp0gnTpQ3Tdc1AJirXDMZEmjGVuOmMbG2mFGsGU1ky2yo3235htlVutn1rtlVutn1rtlVutn1rtlVutu0oqHRZ0sqttyKz" +
	"rcqhVojCFaLZDtFsoxZBSWIJdKCVhHgKQwYwJLPdcgx0Kw+qagZ6rWQ+W463bFnjnTbz2nLI1cqdgW1rjHka5G0vOeNedCBj" +
	"wMEWWtiY91gayBj0dNTUgvpOMH7dkyjT9a9mIIh5PHOe8ESWNiAi3wWMHtN/RgMOu9TAnWmQPbEmu60ftya7gSakDUOZvaXD" +
	"KzSmQ8Z4X2b50QMksIV1/pChea4PEB8RomTfP2aOgW87BjzMjx8wKQbrELcyffrvz1zvBGJgXeJm3AAGON4oXMMbuUsbsUsb" +
	"MUu7Zy2/tKXil+6t+KX7HL+0xrJyh2SX9d4HN7Os0biD+xrEYxSEdE5WfA2M4udKGBZK6OdKGFol9HMlDK0S+rkShlYJ/VwJ" +
	"Q1cJI3yh7Ucl9I0SNkgJIyQ2QiWMUAkjVMKIjiiNEkawfqOEESmhcJRQ5EpYN1BZCYWjhMKJoESugrbudQd612lpFDCNcvii" +
	"U/uWA5UVUJQjqoonloUn9tf0xBK9e+GJwzKWdhzPp1LhemLhemLhemLhemJJZ6kwiCrFPjgqiVAhVYPmq2OeiJbpuq/nbsZ9" +
	"/cY4oY5xO7+2kD0dkvpXOaJjEa/miHGLsP4vviXez1/b+0VX8X684v144f14cLWUJBY7VicliKykJYiqJCaIqqQmNNq1kpPa" +
	"DWeGGA/a3GQsz9w24nHkKPleGH/MKhMgt5MJNJoGZJhwvbxU1P3Y34EsKVuQHFWyITmqZEVyVMmO5KjS0kRIB86lONl8cRHS" +
	"w3h7tEqjuO3EVDhiKorhzuaIfLgzOSIf7rPJq1eRV6+QV+LYmDWk+PGoDibh/1Wtr8UmYJINqaS+Ak89liBbqYg7JYx579yE" +
	"BnTnJjq1sO5W3Yhkfpb4/85bK1g3mQawCscKYoN4I1kLQeLlmI8QQ18wPpMsNKEGlJpUMSFU/gl7LevJV9tOvtp28tW2k6+2" +
	"nWuZFMzFYc8wD8A3ZjLOZq2mzF9Nmb+aMn81Zf5qyvy1KVNEmW8oAuu9QccUN5AwAUXC+ZJ6vfgeNncDpGYL4NM36AvwVs4S" +
	"W/Yz3mCPlxe1OKbVQiLwkyb6GIxGh2NOJwL2nAM/l8irbHSI2xvc9hvtCKW8jWmVxafWm9x3DtvzTr7TN9BDUY9LN9GjUZx1" +
	"kITocCAhgRE3sgef0xOPa8d8q2w7nvKBW7PngYNDvtVqYjZ4sL+uLIrbWBZFYE4z11rnoHEtruMwEHTWYMxaFrNdER5G0mWp" +
	"wQ5fg72lKjzPO8Uzc/tJ8+D5BveW43rcpLTft9ezgofJNgbYlyewPZrHvKcvjCwUeDqKxPhX6L7ogjXzNpkLMbEfe0AsrMfb" +
	"hOmqpG/UuchGxXf1aM37IBGl62veB1kpuejiNghzboOw4lbH2RzROebcCWHFFzD7ed13roX41WshmLfnQ5yzBACD/F7XtKQV" +
	"B3RRJv/YjcxBRbieujeBmAjao/R7dA0m9vCzALxobE4lM7mH2S5msCj/nrmd5uV3Uhid/TLD7FhhidtDDdwkILe4k4KZDsBi" +
	"ANcQLt1JYZjXMpPXYhaccMy5SM9gYMiSgM4M8Tgro3sfZiBOlfjCxUOiK2kMHnt2jXUcpF5eSN0spJ5fsxssBITeWQWvrEJU" +
	"ViGdVShnFUR8zRCPo98g5UAfGY1mmeKmoViASoI2NsuE1wzhjVtMeKMgHOa8Udo1fp0B45OrVfleVzXqNLcfbdQZ/EWBPbD3" +
	"JDula5Ix9O+kwtyUvEx39pi+x3x3gKo7Ug9fG3aD3WF082SrwA86INDtGEUVv6rcAQhoNJ4KNM/cinmLSijmEZVQP0OMj6jW" +
	"pxLWNqmEtY2y6/ZQz7yBnnmFnnmFI2boT4xnJWACBlAZ+FeJ0N02CDMrtFuPa6IV4ScnBp6EFk7xGLOZB7aaZHfq91d/liIW" +
	"0dilr1Po5gaG0Lua7/aqxg9yJ6/iuz0nX/Gq+YpXzVe8ar7iOU7cqzhxD524d918hYyWl+crzLorrjvWvQTBSsyZ7jeC0/F3" +
	"t39r547Jh7d/+2uTD+5+ZAfDK88C/kn4p9j6s/6sP+vP+rP+rD/rz/qz/qw/68/6s/6sP//rD54FsGe5mp85PMuGOgfwV8Wb" +
	"7/3Kvfdv2Yw/J+bfbLKw/FNnXrc/QRbN7x9Z7NGPjWVY+rXytFJY7Xn0u+SawgZ1b38Xxm+o2cMHe/VhztrT+LPlvYemjx45" +
	"ON+b7TYbnHmb9830Ztj9zaPdI/uW9uJcIRT3zi4uzu6b3PM4D7+zZ2m+txTvnZuZPzC05f7NWzbfF09sWSLsli+zu9sw44HZ" +
	"3vT+2ZneUnd2UdzVPrzUm9kzNzt5YO7Inpm5xbsaiwcPzE/OHu/9B/U0mXw="
