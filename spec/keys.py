"""Constant test keys (PKCS #8, made for these checks)."""
import base64
import functools

from cryptography.hazmat.primitives import serialization as _s

KEYS = {
    "rsa2048":
        "MIIEvQIBADANBgkqhkiG9w0BAQEFAASCBKcwggSjAgEAAoIBAQCw8u7h+0nqWR+jnQiXaIfs9A4j/Ack9BbIrqM97ySTKyq9Q94QOA6WRqrBf9DGUVcHhFE9"
        "FylX873YJc60K86wjuipx1LnNiWRr/nr6cGiTt4/rEtjeYMgtbcRxEriY7wZz/lkzctQtkPviFgMYQV7+FqF7PD5u+LH2MiBsuVy4Bl/XoOb+FUkmH4g/eHy"
        "awSpMRTuIwcrFl1bcf4ZzeIscTGD+p0MOGUAhbJvtqF91h/oO18fjj7kYHGSnBNlX2tltLDVtObqtRyPDjlZlWqpDm+tC6AaGvGJqIgUyvzs6QfgilpgAz/s"
        "otoNaQpSUry+710nVNBjHuTGmmVp8i9bAgMBAAECggEABm5Qfpe2ktT6CzpjUWFkA0QcGXReQW+6PkE+lJB9mKL/0tDFytAcE5vDi/RxvtYTntB7xV0d9wuC"
        "5vlPdF6H4gR88eKudtG8ds7Zpe3LyEgr1/jn5S3Jirr1SX4upzYEZD8Z628hSFsqHT6sIzMJfdJuXndYi12n5dHRTl6/67dSy9oWf/15U5jdDrIGSGyAFys5"
        "pMcVNCCZXUY/0tujKiWOa2GEmRV9YRoRv70Ww+sc1+f11Rf2cIgKac/MqAQa8rY/qv9whbdOzCIHDZlb1oc61ePYWu58pQm5z/+JmsrPovEc/Pn0/rG3Qx8C"
        "NyufrVhQpmhlbvWJ6S3CX49xDQKBgQDmQbcKIXkqaUP63mt7U27sEY9RB4+L8R4vlITSg8b67lAm2WDXYp5iikusSHphPy9MbZ1T42oBWj+qFM+5niUdD6Xc"
        "tiGMpQaRlVYH+NxJFSqZr8hh94ueRSzVHU91msdX8KnresIVSzkSkGbFl2e3Irf+PGRTvt0JcJ01BlVNFQKBgQDEu3jl0/6ofnCn7CGMiAHc1UF7rHVsutdv"
        "HuebSETqvbhd4Xne5Dj+p4MJfOWIKoe331jxvQhKvgsJ0pPIoMsaiE072eGK1idLo+Eon1uYI/pU8ke/mdyqwPWP2bDYfJhoJhwFRMZIrEOTIIv33M88m43p"
        "KscWljdWcvReu4QGrwKBgHdYnngoy3XZI/w3JvzATSEdJOy5/4RokN3WnFXFKfDMb00DpTdejXvD9N8yngQjzO9PbZmaqUpULeWJbfXm65O5lZ3l5VPSAaqZ"
        "/gKZ0gwrZW5Nd46X0Y1Si59W1uW9OQ/y1RASC+EfoVBm+m32QTLiUv367YGez1DiRwnB45rVAoGBAJF18EE2yz84JgHzNSccVQw8Xeucq0IWsD3IQwVsnRBX"
        "8N7xXVPxuTaJEvlL8McKc0kAClrLIztoYu8DVSPtx965UyniwsIN8AYciNmpYmcOiwSOE4DWufNDMw4GrpyTG3k+XE+E93s6a8h4MyW0jUJJ3da+O3A253mz"
        "C36T9V2fAoGAPAv20pWi5Avj16Otkyf41tkXwridsXq4GuVK/sewSn4tsoFuY1MWlW52+gA5SknV51FflJkB6wp/UBtGYjyAZCM4IXfaMio11e6/X9DJzjH3"
        "kAFkyQNqn2zcDzNwQ5GiBRgEgrtYh7BARIL33sOeLPKQs0aaujiW+WxbC1bbVrI=",
    "rsa2048b":
        "MIIEvgIBADANBgkqhkiG9w0BAQEFAASCBKgwggSkAgEAAoIBAQCmi8JZFuP2/W9LK3RmparDLCOfA9Ob1R4aSsrpQI4KCStVCaGBtbASJEalQjkkEXhT1VYT"
        "UUvMeu7uZHq7fR0v2pQ02EMOAEek4QYokEfhMiitSHRLfdhZeNx3b9gsTg6AOScUtVziYiTBpyjl5WTeO6grpBgwVQAzD4gLxE9zREyJFz/P9qVH0QqrWWBT"
        "lqw0+/y8/ePwMuadp8zO4EHNqh6if3uFjyEFJ3Omf8olmS+rYyh5ZCVXx07aBHJOmaLK91cFx5oKjE9cUkERzGPCvxuCtJJUOGoT7bxeeFu648QLpZVxDiWF"
        "fadE763oqdnCqaRvGZVdfMrSw7+SB5ZHAgMBAAECggEAErZmRkNDptcv34bI49WeW6KEeBPifUJTSQn5RX7q1qbUFxBndJ744vjvdRb9O5e46NZx/ual+Rog"
        "6WkhvxoeIufQuiVIV3Thl91upzUa1msf1eRrqKXBnr/tKYBIDiZRC8ggI3wDLS5wyc9h0X7WOAAE865Sx29tf88xbn0GnkEyOnKnr2vA2wtZJKmNI1gV6113"
        "buNSUuf6RFyarTFdqcvBeBv6eTOzJ5FLooEKKL4BcE/5iJFz/h5yqUEcRICsBPMvryTt0DkvhDhckQXEmwMwHIR5ViljMStl2YlGMKomgxw4BJosNzS/mn1g"
        "5Q5tyQfNOThh2nG0jkVWX9J7GQKBgQDfgqlxDc6gSDi570/IfrjqscDn3KDjmSwYARWMoO09Oi9CRWng8iYx+5t51GfqdcSKk6vFdbw0qu4669ja0WMmRsKn"
        "4h7B1mUdPIS82JEHcNN6el2RFcTT2k7H8pIhF5o8qXkmI1yjxwe8SLNVjWQChLtBFoKLGTZzFJ9lied5WQKBgQC+wVFqoSXoFH/romh6BfK6YyVKTK9+bbfm"
        "QhRla8d+6YvRQrLh9jER1C6+XDruACtYXsf+MPB1xkx90h87TYz3W63FDD2cLL968e7mO7BKt/dOXny7Kw/HS6BqDgbQe1RD8hRoLsMoLGRnBbo8s8+OAjM3"
        "UGYfJlbSZfYo7734nwKBgQC1ndGbWNHOcgEOLQRScY5Gvrt2bFObvUoUE0V0aQt9VfsyyX6YV4trz/xtCYiK/rj+tbG9GMcesMo1vJEQdVYwswzXKCk/7rto"
        "/1UIsp1eQ3LEMgw3qU2vq9OaK2RMWYZtxnP35oIPXtnNR/HZEbPzS/FwmR7ocktJRbej5WPeuQKBgDars0jrPLECRxNirazjTYjr54Ee72E90uoUYEIdHMUb"
        "7G2iPyCR7chdVrRKPL1/oOyn5YvNvO0UU1HwSfE2LcOrK+eAtZuwG4UCF+U2kDUp+qAkZn1CPzhwTV53/K392s3KcNzXIim+Z1w7gP/qzP63VLRyv4IH+/Q7"
        "MszSwVCjAoGBAM93BA+DPhg6/TyI7y/J7rP7nxiKMCp9f9QlwRs97ZsS1hDVvh4Kgh8mpgWjwLo8jC+paTl1sz0PwnzzaaUa0pJ3Vvqz3DOLkOhFX3xhiGtT"
        "BM06wkwDgTrCc7HWO4LuL2+N9H76yATgExclGojtu6bwIcszsY83c2b8txu6c9ll",
    "rsa3072":
        "MIIG/AIBADANBgkqhkiG9w0BAQEFAASCBuYwggbiAgEAAoIBgQDU0xmSQEDXN628ZVycTjmZln1PuL2y8ranOdoFBQt88MrrqsS8NbV6EV1v0lHMa63NlMsD"
        "mlvf3eTrXIPHI5Mj9UlnBZOzz8cFAhDfOGY4m/fvmIcsSuwM3Ff3xkLRAQks74gTAMNZ/hhKYNsdWlxYT6Z5eGqUWz82pI/n/vG87XowXY9Zn3CO4F+wdBZ7"
        "oLOVpFL7KhdVg8lD2WR6UqOyfzFM4AoFiR5mAvnaxWIxuo+qXNHJ3oH3gu0Q+jm0cLY/qfA5Fh96vD6TJjoaoqwBt8Joj2KJZk94tc4UNWTr/nCBMaYFZvWR"
        "FZrgjRZN+EJeLQdGvS9fYYksQDBEfSWbaZ0gu9GArZ2KWyc5wclFf5z0esynekSKaiX5Z9Ww5Vxoeccm9IIBMhRn+LJ2aRjvm+acdo1DqIjrnTXNqZHWSl8l"
        "2OKGYMA5vZK3b7tO9dwHXcvkZ0vuih5YMfm3ZsRfIbLIv4gBhUheKJxfSIYeeHEmdbFdz6HkOUMYWBRLU/kCAwEAAQKCAYAMgyC0vXxSat6W/eqU8fBm/Db/"
        "0d+tPqHIcRlFREepn8p+UnrgidPSimTQ5y+R8h60wHOzEYcnQTdtMvI4afoDmi8nlGdbofKUc8ukI/+2gkzwVCpWS01XcDjnw0s4WHQ+pRJ984SIrOymqs0X"
        "C7H0KzKhX5f8guTThJdFT3LM5bVSVJ3R6hLHA5/8ksajnA4S1Sdfxti6WVYi3AwROPyQyPOQDnfoXWhhHPmth/8+5zX9ERnwYVmIwLTJU7zCxAGHgNw5GqSX"
        "6sDu0nZJOqd1qx0hdbeQ9vxNbXZ7lc1Iym0iZ9BhQtLm6J8y2hheQO3bHy8LmeQbY+i9ZvvqEvPq2lM3U1DVVic/gPhGCURtJL8h526sgwmdJxd9wFl1vDNb"
        "J4d5/Ow8upfBrL+V/1kznxFCS4yooCb4digxcs/ihD+snxHB471rwR0KT/B/7kGiX2vczsK8AdhACY39iPqoZE6VUddpCKPW9p0FFT/CzeJ0q4uO/lsdy7Mz"
        "U83qxFUCgcEA9IkVQeNyXyfun/zmaDHGtIYBGPiXfAzMcXl9bEyTUswLxV1HLpupBJlu8To9HNua68NldYIN5DptYxEStHJ5t4RZ0j5/D9ijhLS8rC3sH45d"
        "kwnWHOuCgAN3GkrrH8lp08EN1Zce1mOoVpuGiQew6ne/ZoWzSYewZmVIW2/Wc9UmZ5aFTG7Wo+cBli0HukG3vw8uEbNjVDocP54326ottLJEJdUNqTNV++Xb"
        "r9k/MZ+HlLmm7wUvcnyTDOw13aDzAoHBAN7NbDWpfn6v9kgdOjQ0p1s97WPdJzpcSN1CkQjlPVPZ1OYGBEYjDsaWNauZmB9JKatZvc22u1dn8nA8pge2Sn/i"
        "d8CZ4aVSYTqW8zkpILExWHPO345dLyAUprWp9UIh69jD+iFvC8DG0MaVXS1vR4g2f8DiGr8B+ipiVx1hCxfEvV6ZpLhqv9O58bU6RqAD1ZLZ3NxtpMf8aEqN"
        "6JaBpFP/NreeFn3KNvph2Tjzgaf4hXiel4Tr7SbvlRFElecSYwKBwQDNl6NjrhKupigeIsaku5TQmgm6MOdLyIbqsLYeo5MJfbw3x2Ddcsn7r/RypABVjt0F"
        "c1aOITYEuIrXS7dqNwTWolPSS/EQJZf1Lu+h40oujcdmpFJ8JhWmA0PTu0FLjE+JVTqIZXHr1gXmKwRFmU3JE7y8OZSvMYHB1U2scq7e3EpZtVeFF3smekX/"
        "OQTSOAaAgAa/ow7T9bdiVWepK78ZuPdKx4GgzCRykKLPidtzoSighiYvtzBZFRudNctj9rkCgb9HXYVLqv7ZlYNNlg8Oqc7xauSfGDd4ehbcyHWsY8FBGoUX"
        "KNY1oQUalwKZ9JjFbKnsONKTEfTwCludl8+WqM00KVYyWxfr3HdITRGbPZE7MJMkhR8WesKdg//iMI5eoH7q79su2mLpXMWC1lUCOKKw/sPtBH+MrxVyfg1p"
        "W6wx8NK3en9Ikuje6LCDXCdDGfdPEnmsIXKmnDLLrqjRjLUWMqlUJ08M+7igercZhuYA55nZCPN/oBJWZmdZIJ7jZQKBwBuWhjWMY9liXAWIQyiOPrDHaBrG"
        "8CQvcpf5U4GRjuUVnBsaePwrCsSUV9FUjPUBTWUlSKZ3gn9fSDZMJjW3vQ0Ti9ZmQ0g1K7TtbFhC8eYLdxHdYZAw+lKGAMockPrTFoA7P3mkTtAyaYqLjl65"
        "pr98iFSwt/j2Otn9VTYtQswGSRtW2DDw0MGY4+FjvllqtAYGLcyoGOwKOjkuYngyzD0wR2vEBhoSjVME13SafsUq6HOy8fTehAfwJh3UJl1ypA==",
    "rsa4096":
        "MIIJQQIBADANBgkqhkiG9w0BAQEFAASCCSswggknAgEAAoICAQCeZH8VeB/h/XIJna8uWlkTW3gY15gML3CuTT74Cy0fkeBDQn3iQPNNf8NvxR3hdlvnsTN0"
        "4T5XSby49KBoL8FM/L/0UdozpfpY1SjKw9OY1zODPq7xPFrOQBc4n/w6IOrHhxk4bbo6Calf3aVG35G6n7K7N/VoxIvUIwuLDP4jbTiMefWhUvVtXLhXauVs"
        "bB9yaUTkVLFw92z6aZrQaRh7+6oaykbrxwoISQesZv8dy9EwX1C+UrETdRZGLF6xahOF/1bDOoYXgE0Bd9fgUF/r9dHpkY8F4y0oj4TQCXf99Qdsxlra791m"
        "9mBXQoZGdlocbUeqzkdpu4/0VPrtBsCuR0JHWuXYc1myvZBsuaI7aVsAgYrbdNaBUKSA1kefmPuacA4fRpHF4GlO/mWcQTfi+7FN5rdC3sttLe/w2ZQ+Z4j6"
        "7yfzFcLdXl1jjsDb6ZKYlMuCdbLxY9ZbNV1mmeXyU5Znhj4IlkEg+Qj5/CElHRkrNUc3fYHMGXz7lfB5/1DJQ0bklMSZj/S1eUDAa6DnkkKloI2SNNHgQHDH"
        "pD7ED/SmzLuUml2VrQfNZvhEYoqlX3+Q3jC74KATsESisbUWFK80cPGPEAOdYwL6iJzPwtQWfHfWv9aaWMSH8a9k/6+U571h1FDpuPy7fDGjKhRkSfbF7ua+"
        "vgUlnf/CZZrLyQIDAQABAoICAAELHViolmDRMZofhhLoXrsfdZafNyUcrXAra1+Xe0Gdth8hIC+269HwPZ38mljJ+LmQ07oKv0VjBoL4UB9LN8mW3WJO6wDK"
        "02QvsRx3BT0BhHZa9ubKp3J71chqth14pGepW7f+FLEpAMUXLJwCRwaqs+0rn6ebTU9rQ1GRRbUiOA9rY7Y2n5mjGtH0964fQgnGdEy6OEio3PimD3JjHWUt"
        "Jg64wjk1Zl35Pen4vYsiEcXlWWSL8C4kuWg0Bs42ZGfONXF5bvMROqrRWqdX6O44LstdvXkBF6jKpw/IJIzaL7ybnS1s9F0P6Ya9/s+KvyRPhoc+41uLlwn/"
        "dyJADN1tqEVzfLgNVJrAaPIbIOs2GKPDUgrU0a4Dn6Cb/oxXpHdr9w+5u0bGP0S/r9U7/EaqtaBMLoKQT+gYwfZFEa0N1EiXffrAZUnZpubjz5mKj8D6XlbQ"
        "u+TzKYAm5jPCdrFRNXtAtN+/tqu3lGP8VevBBtgDNCYyQCcYecIJ2hOz38y17yg0nZrhB3b1EQGAOEKfzjDPGdEdR8x8Qz7J6pKpRjOmnzgbaj1YUar3NsW0"
        "j9wF8TpmBlBtJNHeF0YRlGI5krXjKAkLmdA0UD/FSCtrpqyNr3Q3eUJLidtGQGRPArZO29Clgc+DBRVca73fq1UpW5u9n0Xlj+TX5DU2B7ldAoIBAQDX65mN"
        "fCIVmbnmAlgXP9EeSw1A5EwiQFX/z69pwJ42nRdwBGIoUS3ryaH03MpslaXhL7rHo+pwy7HgmX95YEdVtKXT5r7ALXVzNRXUrNNd6y2YA7qnTK+s328xRaPX"
        "swc74Q6d//XJqEhiHnsegA46TVnS/SLmdC5hLbwd8qmR9ogrcqqyVZpUUKy7lDJFYVQVF/H8w8CuMUu0k/8DBuA/7EsFTVXUgLyfPsU7IoinFGheQPP7n9rk"
        "haFtBXP39K+38+6jOrd2qJyZBY7jTaN5bJ6VbjXCKwn2nct5cwUWhXAwaFWcyI0smauXR7u/42tJVK5S4vQETDYc/+fvGsiLAoIBAQC7yzamxOzWAJxUoodN"
        "aewXE86euXHdQOGADMvTjmgR8mRXWVNsXG66+QAv1xWJWQZX8nMpRSTW1kBFmCNa88w8+ED4hh0YDZQaXUuiEbjibfUhTWmWx14JLHrmSdOBg1B+kqCnDHq0"
        "hY/UW+b1gtlNZC/oNDoWVYmCi1FhmxtU56BlJ6TOp5MZQrAS6+HJIemXh2EZM7lfRf7CQGzykFSswGJn/HLLJ8/T/YeDetd1GlvZUBeIf1yJFV9XN1NOlmpE"
        "47Lhb5EJPZP8OyWhWwwMpl0BgEfD7JqjSaukCzQdtfLWhld+lFFGVVwWgBLH+Swgkv5111XLCubl/TSBsnN7AoIBAEdeSmznoOR+4WFTWQamQ1q99+2BCGEx"
        "3rslTJep4SGwHvUZndAxtPoAtZWX/RiTBjc+bYBbf7w0t+DDG81ks29yvHUkCdy/qdigrUyUq3CZsYJTiTiPMmnzmG8y04sSU8vJAenblsRG6VX1OUDFlu5S"
        "buQ8Y3LE6Cea1FkZwk7KrAugZSd4///qgo2l2E/ycbZfKc8gbOmmxZ00Zc/8T9cRJWLlQv9wZehE+TAoo/6F0lGFKp/7IID0Yn0ElmZY7FPjPveZCtcfuFMj"
        "8SzUlrol2u0NdpttWme3lG/aQs5E4OY/Nj0SVQdu67afMUGly+p7IPuopHtfLWu8ck8oDS0CggEAQHv/QDTOvo1nIQjOPR7qGuKKSKaVGsx0omvCcdqskb0S"
        "B4x8wPDcdQebsNHCa29OZlSyhrFffQYE++DKAylEMItug+hJhUDkYkk292fufJIVYmIap9O9zpifewROxGI6+buPvsziNarHQLxuCk/sHk8QxENqztCAb3s3"
        "brS8JeODiDictvmD4WCs5VJqLY6fj5DFHspMFRML79f/kStOaCOHpv1gzbHWA41DQzqjUWrDr1N5QT26oLfeDSzKRmoQA6fMfOy6eNnUPwBwY3/IG2/k7+cE"
        "vZo5X2ikr6fJNYqM4G0xDh4P6n7VKETCLji5llXjWsOeiiIsNz1DEmYckQKCAQB3hEdUUr8O2lkycDjLKonkLoefZ6/eFkH3XioWw4GlMIyD0qHWu1a4K4Hv"
        "NbvFsRZCIG9QUbHW0r89ri5OEbvADDk41y3IVtaRyv/VatmGkGeietuch5N3eM38xjvRV+g4GGS9U1kM0ncrK7vS8qC549oTL1Jgnt+3Ppiqqf9nAm79u4zT"
        "G9d+McO0Xu2U/8kfwg1bboZ01n2o7lMCjfYhAozKWgGyrmViIL4yyyDLzlfS0kBY4oyTSgOhBdLzR+bD7N28VgU5fr0qk+bLDPzCRwvISJsLL1IMG6CSDBTw"
        "ff5hs4cL+FOExEcRdNRjPKGNOPHocoBYktzpgwMLu6Z3",
    "p256":
        "MIGHAgEAMBMGByqGSM49AgEGCCqGSM49AwEHBG0wawIBAQQgaZeRsDXsdKgl89eqghTQ6nAbaBbk/fsozOA4iOTf04yhRANCAAQEPTLjoA8LoApiZJZJO8uY"
        "QQkQRjzimnjbJ7beneggQHgVzL58qJOkXwBQ6cqmws6xhBssSDU4Go2DpoLGZjg9",
    "p256b":
        "MIGHAgEAMBMGByqGSM49AgEGCCqGSM49AwEHBG0wawIBAQQgijnQQDz1XPYblG5+Z3MnFK1HLMcEsuGPjmzbCHsWsSShRANCAAQtWkEhA5DjE1BNGMH1ZnaV"
        "dHI3ygHY3THpc/ZAwk1DacII0alpU7WozrG5cjPVt1w/6o1ukioQe/7FAWJMS+1g",
    "p384":
        "MIG2AgEAMBAGByqGSM49AgEGBSuBBAAiBIGeMIGbAgEBBDBa/Rwdwrg9vSNaz5NVhwQppae0MaE2PtJNkDFEyr1NyZ0ONNbvRtDcsPt2/cBCDNGhZANiAATr"
        "M62HZr1m5afq36HszhJ06ZjudskZDN3Wdk0vWx/P0bUXB6ZfU2h0ZWPpIKt1+dLh+Oqhw3nFmFNHxUP06IbXw+oOND75Kxfj4p/Yp0LqAkHCjmLzFxIG4aIK"
        "tjvpipw=",
    "p521":
        "MIHuAgEAMBAGByqGSM49AgEGBSuBBAAjBIHWMIHTAgEBBEIBQvRJpWqgbezg3mLGjn5imL/d6z3wmsVEUGO+GtYeoLeAIyV+w2zVhuebcQY8cffbO/0Ta5lQ"
        "6nGG26oQl7Tm2WOhgYkDgYYABACInKJcUvRgD/5hMARjEqCxfK/tmUsnw5SRcS7DXXLvCC8OQAKr97gLzTqsnXIuNq7gaepX57wxzL6lLwk7SS82AADmhsj4"
        "yUNzuSZrExKRilXiQ7R+E+XwOGlFnDn+z9wmmgB8gbYcC6qtcZwAmrOsdAmhzCpph8VM9tlmQ8DMKv59ug==",
    "bp256":
        "MIGIAgEAMBQGByqGSM49AgEGCSskAwMCCAEBBwRtMGsCAQEEIFeNIsV4WJxocy28vRCRD4cfH0xR7rgkrGKczLS+ezOUoUQDQgAESxTOVKG5AT66M2vDk0w8"
        "siLInPEr3Fp/mMzPa+tWzwgJ129iQU3uTi+WgIQxdoeZYpLDFI42PpqCPa9/7pwKmQ==",
    "bp384":
        "MIG6AgEAMBQGByqGSM49AgEGCSskAwMCCAEBCwSBnjCBmwIBAQQwRPCp8Iermn1bUb8xYcsE1O2/I9tPxKCtIbEzoLDZx3RoWdmbka6lAjsRAyExEFpuoWQD"
        "YgAEURDYUE8oLWky13/opFzUuOaBD8qRyvSiSwvP0FpqeVpqCufK9UP1PF2wkD1x0onAMuJ+OXGk8TcpforPKtJa7GSwamrZWxHA9k647qRmsVHBMBjMGUmT"
        "56zWJMJZSjms",
    "ed25519":
        "MC4CAQAwBQYDK2VwBCIEIOXVIjItvGIYzBiC4+cp9iyZNzl8+rkEBx4ebbl3iTb9",
    "ed448":
        "MEcCAQAwBQYDK2VxBDsEOZCjOe/9za61g8TSSRpniVwOCLAxb1NM+egFQHVrz2/KbyyF9GpZFMJzNwar1C1FSqq4iRKYQh3sEQ==",
    "x25519":
        "MC4CAQAwBQYDK2VuBCIEIOgD2M0o9z5Wi/w6iMhhmB5G0e3CoUkfXl0fKP5RzGNG",
    "x25519b":
        "MC4CAQAwBQYDK2VuBCIEICAbhXRtfWUkSHeKn/0+k3dic0k6+U+nklpReorTYx9y",
    "x448":
        "MEYCAQAwBQYDK2VvBDoEOIgczyspNTksp43TCf89KHCPlg5yPaBjYXYtju/eOog9GTAAwvlF1qA/o8wpIqgCAsok2MINQSyd",
    "x448b":
        "MEYCAQAwBQYDK2VvBDoEOOxu9Vvs6Gxx72aUQ8Fy/qFnaB5dkqnKxKn/De27T36NYEN7yHmz8Y09hjZTNolfPMXABISG4T6h",
    "dsa":
        "MIICZQIBADCCAjoGByqGSM44BAEwggItAoIBAQD6rFVVn6IsFMcL48c7+EgYZ966Bm/gdwOX7/uVQxcPg2idrVvq7KHfKM2XZ06ErxQq2LNXFUCwPtIbSZjv"
        "qfCIfTlxnGi5UJZIcAIgdJTEis8qfwYi5BIZby7xGznP1aBaYwphJh1IcTr54jXz+U+t0zQBfvEi9QQLbZOGbwXUFLUT4ZX/837y5de5XtKwB2kMKaEfXkMi"
        "+jWgscK/ya5rrIUD5YkPZLGLzW1Ojapk0A3rEy3VrSe6XsNgibZG5+eCRpk9iVcCyE0s3uN6dNDeaxwQDHl8YIkXv1nxZ3OD7BwVXdnQ7KXHCDHyjIWMuEYr"
        "2jqmsa4oioTtp5HeEJctAiEApjwzg+Jd7dbWYMLCWw+Rt15ULICKbf9B5sHIq3kw8FECggEBAIFJ2z6xAVNc3aeu+/GSXIncHK1LY40ZOToqcS3Vz3aEulO3"
        "S/Sk86RYYbfmeFVoY2JZkxJ/hEkDZneQB5xqCI22OLhzULWEFnFg+vM5f9HZ9WJjGRyJKGWMWzLTX3kqFYEkWrDlvGJOE8fP/KV6TRUXmnyjfJjIuUBh1KHG"
        "TcZVRs/PSYSHw77xW6z+/p68Bbg6hzhkyfVg5tozLGbEV0xqXIbYN3/b2MqNoZCeSN+rjimwPJPdBL5TqQvydnVBu6tUVzMHNHotGrlw8JVFjuBVrVT7KoYs"
        "0AyuBlW4hUnO+NqW9pjchHBFxwUGWsSLXt/fS8dYMG5Giw3OLc75z1wEIgIgbEDLcIPbGmS5o0gpcqefjvZqe8s7Jd7JYOwXKGXU0D4=",
}


@functools.lru_cache(None)
def priv(name):
    return _s.load_der_private_key(base64.b64decode(KEYS[name]), None, unsafe_skip_rsa_key_validation=True)


@functools.lru_cache(None)
def pub(name):
    return priv(name).public_key()


@functools.lru_cache(None)
def spki(name):
    return pub(name).public_bytes(_s.Encoding.DER, _s.PublicFormat.SubjectPublicKeyInfo)
