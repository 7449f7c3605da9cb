//go:build go1.22

package guestlink

// packed is bridge.c, built by build.sh, compressed, in base 64.
const packed = "" +
	"eNqdVUtvI0UQrupuj8eMnXhRhCLEoWdAImhxJBORrLKXTKQIIQ6IA+fJ2J54PX5mZpywEtI4D4KB5fUP9oCQuPMDIq7ckJD4" +
	"JRwR1T2eWVuB1UJbVlfVVHd9XV91F/jxEAEApXEsUhqYHrM0hWOkP890UH9gaemVcz/uefHIn8SPxok3iYKzXnDeNE863nnU" +
	"SwKAf/Eok0cU+B0AgxyGUVzxvPHEG/TiBHBhMjwvDkYdYAt9zfN6o17itaYnJ0EUA/KS4KLERAkniFjiCIdGBVN0n86vmVU+" +
	"EsYwGI6jxwxqnpftoXeA0mahL4ISmNNpQMHLz1x1cPOlPy3xK0OWvj6jAW697/A3MhFswQ7YgQR3NruFD2ogMZdckGwfvp7f" +
	"KjeJ+/DFQoR9+CwT3dlv+BBnCztzzbN9eFJoddK+KrRN0r7MN9Oe80JTnp8XmvK8yWNpz+tCU55XhaY8L7WmMdjgrtnIDySX" +
	"uMuqNMEuMyV3aRIukmCGehJhXR+/xiTfYsJhRyQRyNCm+JL1HayBVb9RLrawaEE9zPIlxboFYP0usJQnU/YdyD6yA64SaYQ2" +
	"Eg6mFMl22Ws0EZxN+kQ4NjLgCge4G2H9YoEDttiGwxUOAkg7SILWdxjhkNAAo0buW2A6lJ1EUfQXP3XNJNKZ1JrOWxQ5wr0g" +
	"+j6soaI1+6kNyu7Pabj2Jhh6oLEy2KpqCMOiVeKIauDp/PYCCI34b+cpF+cp3zmPlW0qRf1S+VbZUrDZ/wlmFMGMu8EozJUO" +
	"gxYViSJMR6lfK6PlwuHsF9zjixJ24SE+ycVdNl8qredSiiuostLiBSq+ioo4rhIw4tWVq2X1A6JYuqOQ39HD2R8vjjGrQoWy" +
	"mqE0M5RCwzMzlMUFUGVFF4BQ4p3cZRfgVXXrFjg1yp/4CkosXhJGSGEPb/7hmfhx6Zl4wSv9rHpr6lozIpA+81Ob6+dKvF9T" +
	"7p+e2kKFpjMz9xu1LiRBEx02gCCop+fb3H6xav8ut1+u2r/P7VfLdkEGETrsPVVWhIFyBs8Ni6FNuXTT0OG6EukYoaJfV6Li" +
	"i9NyzJii3CumMGcKM6Zw+alCxZRQTwSXIrQ5MSUWVZ5ThatUQSpG/jCAe/Wu6gzb7+zsvLu3rXoDflSBosVh3spYedFLeOXR" +
	"mDqKah+iutyxSkJphtkej85IDcp8PIlNoRzLLyOsU79L/Hbfm4x7oySI4EFlEo070zb5YpXEdhDHQafReozVj1vTUTKV7YE/" +
	"6t5rPthubu/IreZUW5tvwdvriR91g8Q7CfxkGgUxu78+nCZ+axA0uoNxyx/E98241x01gk+SvwGCkcqG"
