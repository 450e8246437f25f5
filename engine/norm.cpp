// Oracle: Qt's own normalisation. Reads lines "S<signature>" or "T<type>", prints the normalised form of each.
#include <QMetaObject>
#include <QByteArray>
#include <iostream>
#include <string>
int main()
{
    std::string l;
    while (std::getline(std::cin, l)) {
        const QByteArray r = l[0] == 'S' ? QMetaObject::normalizedSignature(l.c_str() + 1) : QMetaObject::normalizedType(l.c_str() + 1);
        std::cout << r.constData() << '\n';
    }
}
